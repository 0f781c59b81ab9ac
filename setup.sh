#!/bin/sh
# builds the rustc driver; every check rebuilds it when it is missing
cd "$(dirname "$0")/analysis" && python3 -c "import frontend; frontend.ensure_driver()"
