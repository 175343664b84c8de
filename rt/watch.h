// prepended to the library's sources: marks their variables for the thread checks
#pragma clang section bss="symx.bss" data="symx.data"
