#!/bin/bash
# builds bin/gosym and the hooked copy of the Kafka client
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin build
(cd gosym && go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym) || exit 1
./bin/gosym prep
