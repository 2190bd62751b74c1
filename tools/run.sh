#!/bin/sh
# developer helper: run one check on the built binaries
exec /verif/mc/target/release/mcx check "$@" --bins /verif/mc/target/release --verif /verif
