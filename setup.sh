#!/bin/bash
# builds the analyzer (the checks build it themselves when it is missing)
cd "$(dirname "$0")/analyzer" && cargo +stable build --release --offline -q
