#!/bin/bash
# addsut.sh c06 C06
cd /verif && sed -i "s/^pub mod util;/pub mod $1;\npub mod util;/; s/^        x => { epr/        \"$1\" => Box::new($1::$2::new(seed, thorough)),\n        x => { epr/" harness/src/sut/mod.rs
