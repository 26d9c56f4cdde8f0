#!/bin/bash
cd /verif/symex && PATH=/root/.cargo/bin:$PATH cargo build --release --offline --target-dir /verif/build/sx 2>&1 | grep -E "^(error|warning: unused)|-->|Finished"
