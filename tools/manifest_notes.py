TECH = 'contract-based deductive verification: obligations generated from the LLVM IR of the current sources, discharged by z3/cvc5'
COMMON = ('All inputs, no bound on data sizes. Trusted: clang 18 front end, the VC generator in engine/, z3/cvc5, and the assumed '
          'contracts of libstdc++/libc functions listed in the evidence. Replays use the project\'s g++-9.')
NOTES = {}
NA = {
 'P37': 'Quantifies over thread schedules of std::thread/condition variables; the contracts here are sequential and no verifier with a weak-memory or ownership logic for C++ threads is installed.',
 'P38': 'Ordering between concurrent log writers and a printing thread; sequential contracts over LLVM IR cannot express interleavings.',
 'P39': 'The guarantee is about the contents of a real directory tree read through opendir/readdir/stat; a contract for those calls would assume the very thing to be shown.',
 'P40': 'The work is done by the external pugixml DOM (a separate library, dynamically allocated trees, its own parser); no contracts for it are within reach.',
 'P41': 'The conversion is performed by std::codecvt inside libstdc++; the repository code only forwards to it, so a contract would restate the assumed library behaviour.',
}
