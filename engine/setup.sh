#!/bin/bash
# builds the IR exporter and the effect tables of the contracts
set -e
cd "$(dirname "$0")"
bash build.sh
python3 -c "import driver; driver.spec_tables()"
