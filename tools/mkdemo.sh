mkdemo () 
{ 
    mkdir -p $1;
    cat > $1/demo.sh <<E
#!/bin/bash
# Builds the demonstration against the sources in the current directory (the repository) and runs it.
here=\$(cd "\$(dirname "\$0")" && pwd)
out=\$(mktemp -d)
trap 'rm -rf "\$out"' EXIT
set -e
g++ -std=c++14 -g -O1 $2 -I scalopus_interface/include -I scalopus_interface/include_consumer -I scalopus_general/include \\
  -I scalopus_general/include_consumer -I scalopus_tracing/include -I scalopus_tracing/include_consumer -I scalopus_transport/include \\
  -I scalopus_transport/src -I scalopus_tracing/src -I scalopus_tracing/src/native -I scalopus_tracing/src/lttng "\$here/demo.cpp" $3 -o "\$out/demo" -pthread -ldl
export TSAN_OPTIONS="exitcode=66 halt_on_error=1" ASAN_OPTIONS="exitcode=66"
timeout ${4:-60} "\$out/demo"
E

}
