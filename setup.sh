#!/bin/bash
# builds the analyser from the committed sources (vendored dependencies, offline)
cd "$(dirname "$0")" && exec ./check list
