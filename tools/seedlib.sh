# common to the demonstrations: a project in a scratch directory, and podo as built in the working directory
P=$PWD/target/debug/podo
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
export HOME=$W
podo() { "$P" "$@"; }
fail() { echo "demo: $*" >&2; exit 1; }
# writes standard input as the definitions
defs() { cat >"$W/database/definitions/public.yaml"; }
STAGE=$W/database/history/stage.yaml
start() { podo init >/dev/null || fail init; }
# checks that the file $1 has the line(s) $2 (as it stands)
has() { grep -qF -- "$2" "$1" || fail "no '$2' in $1: $(cat "$1")"; }
hasnot() { grep -qF -- "$2" "$1" && fail "'$2' in $1: $(cat "$1")"; true; }
