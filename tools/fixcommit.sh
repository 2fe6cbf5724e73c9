#!/bin/bash
# fixcommit.sh "<message>" : commit the working tree change in /repo as a fix
git -C /repo commit -qam "fix: $1" && git -C /repo log --oneline | head -1
