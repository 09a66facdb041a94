#!/bin/bash
cd /verif && . /verif/env.sh && mkdir -p evidence target && cd harness && cargo build --offline --locked 2>&1 | tail -3
exit ${PIPESTATUS[0]}
