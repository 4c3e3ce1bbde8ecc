"""The callbacks of the repository's sample project, compiled by the real frontend."""
import sys


def load(tree):
    p = tree + "/test_projects"
    if p not in sys.path:
        sys.path.insert(0, p)
    from pydori.project import project
    return project


def callbacks(project, checks):
    """Yields (label, mode, callback name, factory() -> (cfg, rom values))."""
    from sonolus.backend.mode import Mode
    from sonolus.build.compile import callback_to_cfg
    from sonolus.script.internal.callbacks import navigate_callback, preprocess_callback, update_callback, update_spawn_callback
    from sonolus.script.internal.context import ModeContextState, ProjectContextState

    e = project.engine.data
    setup = {
        Mode.PLAY: (e.play.archetypes, []),
        Mode.WATCH: (e.watch.archetypes, [(update_spawn_callback, e.watch.update_spawn)]),
        Mode.PREVIEW: (e.preview.archetypes, []),
        Mode.TUTORIAL: ([], [(preprocess_callback, e.tutorial.preprocess), (navigate_callback, e.tutorial.navigate), (update_callback, e.tutorial.update)]),
    }
    for mode, (archs, globs) in setup.items():
        ai = {a: i for i, a in enumerate(archs)} if archs else None
        items = []
        for a in archs:
            a._init_fields()
            for cn, ci in a._supported_callbacks_.items():
                if getattr(a, cn) not in a._default_callbacks_:
                    items.append((f"{a.__name__}.{cn}", ci, getattr(a, cn), a))
        items += [(ci.name, ci, cb, None) for ci, cb in globs]
        for label, ci, cb, a in items:
            def factory(mode=mode, ai=ai, ci=ci, cb=cb, a=a):
                ps = ProjectContextState(runtime_checks=checks)
                ms = ModeContextState(mode, ai)
                cfg = callback_to_cfg(ps, ms, cb, ci.name, a)
                return cfg, list(ps.rom.values)
            yield f"{mode.name}:{label}", mode, ci.name, factory
