#!/bin/bash
# world.sh NAME CMD...: runs CMD with private copies of /repo and /verif, kept under /tmp/world/NAME
set -eu
name=$1; shift
w=/tmp/world/$name
if [ ! -d "$w/verif" ]; then
  mkdir -p "$w/work"
  cp -a /repo "$w/repo"
  cp -a /verif "$w/verif"
fi
exec unshare -Urm bash -c 'w=$1; shift
mount --bind "$w/repo" /repo; mount --bind "$w/verif" /verif; mount --bind "$w/work" /opt/vp/work
cd /verif; exec "$@"' world "$w" "$@"
