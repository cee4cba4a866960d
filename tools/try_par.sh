#!/bin/bash
# try_par.sh [-j N] ID...: like try_bugs.sh without demos, each in a mount namespace with its own copies of /repo and /verif
# an ID may be PROP=DIFF: that property's check on that patch
J=3; [ "$1" = -j ] && { J=$2; shift 2; }
one() {
  a=$1
  case $a in
    *=*) prop=${a%%=*}; diff=${a#*=}; id=$(basename $diff .diff)-$prop;;
    *) id=$a; diff=/verif/seeded/$a/patch.diff; prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$a/meta.json'))['property'])");;
  esac
  w=/tmp/w/ns/$id; rm -rf $w; mkdir -p $w
  cp -a /repo $w/repo; cp -a /verif $w/verif
  unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /repo && git apply $diff && cd /verif && timeout 900 ./check $prop \${VERIF_TIER:-quick}" > /tmp/try.$id.check 2>&1
  echo "$id ($prop): check=$?  $(grep -a '^VIOLATION' /tmp/try.$id.check)"
  rm -rf $w
}
export -f one
printf '%s\n' "$@" | xargs -P $J -I{} bash -c 'one {}'
