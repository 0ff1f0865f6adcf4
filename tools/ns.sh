#!/bin/bash
# ns.sh NAME CMD...   runs CMD in a mount namespace of its own in which /repo, /verif/sim and /verif/.build are throw-away copies
# (in /tmp/ns/NAME, removed afterwards), so that several sweeps over changed trees can run side by side.
name=$1; shift
d=/tmp/ns/$name
mkdir -p "$d/sim" && cp -a /verif/sim/. "$d/sim/"
mkdir -p "$d/repo" "$d/build" && tar -C /repo --exclude=./target -cf - . | tar -C "$d/repo" -xf - ; cp -a /verif/.build/. "$d/build/" 2>/dev/null
rm -rf "$d/build/lock" "$d/build/mut"
D=$d unshare -m bash -c 'mount --make-rprivate / && mount --bind "$D/repo" /repo && mount --bind "$D/build" /verif/.build && mount --bind "$D/sim" /verif/sim && cd /verif && exec "$@"' ns "$@"
rc=$?
rm -rf "$d"
exit $rc
