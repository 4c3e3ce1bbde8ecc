"""Environment adaptation (harness side, never in /repo).

The project needs Python >= 3.12.5; the sandbox has 3.12.3, whose
inspect.get_annotations(eval_str=True) does not see PEP 695 type parameters.
This gives it the 3.12.5 behaviour, so that sonolus.script can be imported.
"""
import inspect
import sys

if sys.version_info < (3, 12, 5) and not getattr(inspect.get_annotations, "_verif_shim", False):
    _orig = inspect.get_annotations

    def get_annotations(obj, *, globals=None, locals=None, eval_str=False):
        if eval_str and (tp := getattr(obj, "__type_params__", ())):
            params = {p.__name__: p for p in tp}
            if locals is None:
                locals = params | (dict(vars(obj)) if isinstance(obj, type) else {})
            else:
                locals = params | dict(locals)
        return _orig(obj, globals=globals, locals=locals, eval_str=eval_str)

    get_annotations._verif_shim = True
    inspect.get_annotations = get_annotations
