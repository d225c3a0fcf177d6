# Demonstration kit: a scratch cluster and repository for the real pgbackrest binary. Everything lives under $D, which is removed.
HERE="$(cd "$(dirname "$0")" && pwd)"
BIN="${PGBR_BIN:-$PWD/_build/src/pgbackrest}"
D="$(mktemp -d /tmp/pgbr-demo.XXXXXX)"
trap 'kill $(jobs -p) 2>/dev/null; rm -rf "$D"' EXIT
export PGBACKREST_CONFIG="$D/pgbackrest.conf"
mkdir -p "$D/repo" "$D/spool" "$D/lock" "$D/log" "$D/restore"
cat > "$D/ssh" <<'X'
#!/bin/bash
# stand-in for ssh: runs the command here
last="${@: -1}"
eval exec $last
X
chmod +x "$D/ssh"
conf() { # conf "extra global lines"
{ printf "[global]\n"; { echo "$1"; cat <<X
repo1-path=$D/repo
lock-path=$D/lock
log-path=$D/log
spool-path=$D/spool
log-level-console=warn
log-level-file=off
log-level-stderr=off
log-timestamp=n
process-max=2
compress-type=lz4
archive-timeout=5
allow-root=y
X
} | awk -F= '!s[$1]++'; printf "[demo]\npg1-path=$D/pg\n"; } > "$PGBACKREST_CONFIG"
}
mkpg() { python3 "$HERE/mkpg.py" "$@"; }
br() { "$BIN" --stanza=demo "$@"; }
same() { # same DIR1 DIR2: compare cluster files that a restore must reproduce
    diff -r -q -x pg_wal -x backup_label -x postgresql.auto.conf -x recovery.signal -x pg_stat_tmp -x backup_manifest "$1" "$2"
}
die() { echo "DEMO FAILED: $*"; exit 1; }
shim() { # shim FAULT command...: run under the shim; log in $D/shim.log
    [ -f "$D/shim.so" ] || gcc -shared -fPIC -O1 -o "$D/shim.so" "$HERE/shim.c" -ldl || die "shim"
    local f="$1"; shift; rm -f "$D/shim.log" "$D/shim.log.cnt"
    SHIM_ROOT="${SHIM_ROOT:-$D}" SHIM_LOG="$D/shim.log" SHIM_FAULT="$f" LD_PRELOAD="$D/shim.so" "$@"
}
