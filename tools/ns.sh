#!/bin/bash
# ns.sh NAME CMD...: runs CMD with copies of /repo and /verif, made in /tmp/ns/NAME,
# in the place of the originals (in mount and user namespaces of its own).
set -e
d=/tmp/ns/$1
shift
mkdir -p "$d"
rsync -a --delete /repo/ "$d/repo/"
rsync -a --delete /verif/ "$d/verif/"
exec unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec "$@"' "$d" "$@"
