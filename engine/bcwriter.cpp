#include <llvm/Bitcode/BitcodeWriter.h>
void symWriteBitcode(llvm::Module& m, llvm::raw_ostream& os) { llvm::WriteBitcodeToFile(m, os); }
