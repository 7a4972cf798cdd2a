#!/bin/bash
# builds the IR dumper of the verification-condition generator (the checks also build it when it is missing)
cd "$(dirname "$0")" && ./check.py --setup x
