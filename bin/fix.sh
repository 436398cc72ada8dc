#!/bin/bash
# developer shortcut: build and test /repo quietly; commit with the message when it passes
bash /opt/vp/build.sh >/tmp/b.txt 2>&1 || { tail -30 /tmp/b.txt; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/b.txt 2>&1; tail -1 /tmp/b.txt; git -C /repo status --short
[ -n "$1" ] && git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
