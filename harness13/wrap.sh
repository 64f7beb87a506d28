#!/bin/sh
# rustc wrapper: the code under test (and the generic code of it that is instantiated in vh) is compiled with a call
# into the runtime `vhrt` before every memory access
case " $* " in
*" --crate-name corries "* | *" --crate-name vh "*)
    RUSTC_BOOTSTRAP=1 exec "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer
    ;;
*" --crate-name c13 "*)
    exec "$@" -Cunsafe-allow-abi-mismatch=sanitizer
    ;;
esac
exec "$@"
