"""slv: solver-based checking of /repo (cyberhull/slalib-cpp) by symbolic execution of its LLVM IR."""
