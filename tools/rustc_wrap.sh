#!/bin/sh
# RUSTC_WRAPPER: records the argument vector of the probe crate, runs rustc as is.
case " $* " in *" --crate-name probe "*) printf '%s\n' "$@" > "$PROBE_ARGS.tmp" && mv "$PROBE_ARGS.tmp" "$PROBE_ARGS";; esac
exec "$@"
