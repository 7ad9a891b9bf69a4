#!/bin/bash
cd /verif && python3 mc/write_meta.py && python3 mc/design/mkseeded.py && python3 mc/design/design.py
