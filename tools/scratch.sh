#!/bin/bash
# scratch.sh NAME : scratch copy of /repo with the rewrite or planted change NAME applied, in /tmp/scr
rm -rf /tmp/scr; cp -a /repo /tmp/scr
V=$(cd $(dirname $0)/..; pwd)
[ -f $V/tools/refactorings/$1.diff ] && git -C /tmp/scr apply $V/tools/refactorings/$1.diff
[ -f $V/seeded/$1/patch.diff ] && git -C /tmp/scr apply $V/seeded/$1/patch.diff
