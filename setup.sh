#!/bin/bash
# builds the simulator from the committed files and /repo's working tree
cd "$(dirname "$0")" && exec ./check --build
