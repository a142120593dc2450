# Sourced by a demo: a private PostgreSQL server with the extension built in ${REPO:-/repo}, all in one scratch directory.
# pg_start; then: q "SQL"  (prints the result, unaligned); pg_stop runs at exit.
REPO=${REPO:-$(pwd)}
as() { python3 -c 'import os,sys,pwd
p=pwd.getpwnam("postgres")
os.setgroups([]); os.setgid(p.pw_gid); os.setuid(p.pw_uid); os.environ["HOME"]="/tmp"
os.execvp(sys.argv[1],sys.argv[1:])' "$@"; }
pg_start() {
    W=$(mktemp -d /tmp/tkdemo.XXXXXX)
    trap pg_stop EXIT
    mkdir -p "$W/tgt/debug"   # the library that the test build left (not the copy an earlier test run installed)
    SO="$REPO/target/debug/deps/libtimescaledb_toolkit.so"; [ -f "$SO" ] || SO="$REPO/target/debug/libtimescaledb_toolkit.so"
    cp "$SO" "$W/tgt/debug/libtimescaledb_toolkit.so"
    ( . /opt/vp/env.sh; export CARGO_TARGET_DIR="$W/tgt"
      cd "$REPO/extension" && cargo pgrx schema --skip-build --test --no-default-features --features "pg16 pg_test" -o "$W/ext0.sql" pg16 ) >"$W/schema.log" 2>&1 || { cat "$W/schema.log"; return 1; }
    mv "$W/tgt/debug/libtimescaledb_toolkit.so" "$W/tk.so"
    sed -e "s#MODULE_PATHNAME#$W/tk.so#g; s#@extschema@#public#g" "$W/ext0.sql" > "$W/ext.sql"
    B=/usr/lib/postgresql/16/bin
    chown -R postgres:postgres "$W"; chmod 755 "$W"
    cd "$W"
    as $B/initdb -D "$W/data" -A trust -E UTF8 --locale=C >"$W/init.log" 2>&1 || { cat "$W/init.log"; return 1; }
    as $B/pg_ctl -D "$W/data" -w -l "$W/log" -o "-c listen_addresses='' -c unix_socket_directories='$W' -c fsync=off -c max_parallel_workers_per_gather=4 ${PGOPTS_EXTRA:-}" start >/dev/null || { cat "$W/log"; return 1; }
    as $B/psql -h "$W" -q -v ON_ERROR_STOP=1 -d postgres -c "SET check_function_bodies=off" -f "$W/ext.sql" >"$W/load.log" 2>&1 || { tail -5 "$W/load.log"; return 1; }
}
q() { as /usr/lib/postgresql/16/bin/psql -h "$W" -X -q -A -t -v VERBOSITY=terse -d postgres -c "$1" 2>&1; }
pg_stop() {
    cd /
    [ -n "$W" ] && [ -d "$W" ] || return 0
    as /usr/lib/postgresql/16/bin/pg_ctl -D "$W/data" -m immediate stop >/dev/null 2>&1
    case "$W" in /tmp/tkdemo.*) rm -rf "$W";; esac
}
