#!/bin/bash
# prints the fix: commits of /repo, to be given a property in known_findings.txt
git -C /repo log --reverse --format='%h %s' | grep ' fix: '
