#!/bin/bash
# rebuild and run the repository's tests, compare with the stable list
bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { tail -20 /tmp/rt.build; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.test 2>&1
python3 /verif/tools/testcmp.py /tmp/rt.json
