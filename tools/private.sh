# Sourced by developer tools: runs the rest of the script where /repo is a
# private copy, so that it can be changed while other things use the real one.
if [ -z "$VERIF_PRIVATE" ]; then
  d=$(mktemp -d /tmp/verif-private.XXXXXX)
  cp -a /repo "$d/repo"
  VERIF_PRIVATE=1 unshare -m bash -c 'mount --bind "$0/repo" /repo && exec bash "$@"' "$d" "$0" "$@"
  rc=$?
  rm -rf "$d"
  exit $rc
fi
