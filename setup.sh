#!/bin/bash
# builds every harness binary once (checks rebuild what they need)
cd /verif && ./build.sh num hash inst stark
