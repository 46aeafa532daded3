#!/bin/bash
# run a command with a private copy of /repo mounted over /repo (so that a vcheck may run at the same time)
c=/tmp/rcopy.$$
cp -a /repo $c || exit 1
unshare -m bash -c 'mount --make-rprivate / && mount --bind '$c' /repo && cd /repo && "$@"' x "$@"
rc=$?
rm -rf "$c"
exit $rc
