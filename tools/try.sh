#!/bin/bash
# try.sh PATCH CHECK...: run quick checks against a patched copy of /repo, mounted over it in a private namespace
P=$(realpath "$1"); shift
T=/tmp/sd/try.$$; mkdir -p /tmp/sd; cp -a /repo $T; export P T
unshare -Urm bash -c '
  mount --bind $T /repo; cd /repo; git apply "$P" || exit 3
  for c in "$@"; do
    timeout 850 /opt/venv/bin/python /verif/checks/run.py $c $ARGS > /tmp/try.$c.log 2>&1; rc=$?
    echo "$c exit=$rc $(grep -c ^VIOLATION /tmp/try.$c.log) $(grep -m1 "^--- " -A1 /tmp/try.$c.log | tr "\n" " " | cut -c1-400)"
  done' bash "$@"
rm -rf "$T"
