#!/bin/bash
cd /verif && . ./env.sh && cd harness && cargo build --locked --offline 2>&1 | tail -3
exit ${PIPESTATUS[0]}
