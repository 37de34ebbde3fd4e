#!/bin/bash
# usage: tools/cover.sh [PROPERTY...]   lists the blocks of the repository that
# the quick explorations (of these properties) do not enter: a development aid
# that no check uses.
here=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/gosips-verif-XXXXXX") || exit 1
trap 'rm -rf "$d"' EXIT
bash "$here/check.sh" build cover "$d" || exit 1
for p in ${*:-$("$d/harness" list | cut -d" " -f1)}; do
  VERIF_COVER=$d/hits "$d/harness" check -prop $p -tier quick -cex "$d/cex" >/dev/null
done
python3 - "$d" <<'E'
import sys
d = sys.argv[1]
hits = {int(l.split()[1]) for l in open(d + '/hits')}
bl = open(d + '/blocks').read().split('\n')[:-1]
for n, b in enumerate(bl):
    if n not in hits:
        print(b)
print(len(hits), 'of', len(bl), 'blocks entered')
E
