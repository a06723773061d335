#include "marco/Parser/BaseModelica/Parser.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/DiagnosticIDs.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/FileManager.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <unistd.h>
#include <memory>
#include <string>
using namespace marco;
using namespace marco::parser::bmodelica;
struct Collect : clang::DiagnosticConsumer {
  std::string text;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level l, const clang::Diagnostic &i) override {
    if (l < clang::DiagnosticsEngine::Error) return;
    text += "error@";
    if (i.getLocation().isValid()) {
      auto p = i.getSourceManager().getPresumedLoc(i.getLocation());
      text += std::to_string(p.getLine()) + ":" + std::to_string(p.getColumn());
    }
    text += " ";
  }
};
static std::unique_ptr<ast::ASTNode> root;
// JSON of the tree, or the errors ("rejected" when there is none).
static std::string parse(const std::string &src) {
  llvm::IntrusiveRefCntPtr<llvm::vfs::InMemoryFileSystem> fs(new llvm::vfs::InMemoryFileSystem());
  fs->addFile("m.mo", 0, llvm::MemoryBuffer::getMemBufferCopy(src));
  clang::FileManager fm(clang::FileSystemOptions(), fs);
  Collect c;
  clang::DiagnosticsEngine d(llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs>(new clang::DiagnosticIDs()),
                             llvm::IntrusiveRefCntPtr<clang::DiagnosticOptions>(new clang::DiagnosticOptions()), &c, false);
  clang::SourceManager sm(d, fm);
  sm.setMainFileID(sm.createFileID(*fm.getOptionalFileRef("m.mo"), clang::SourceLocation(), clang::SrcMgr::C_User));
  auto f = std::make_shared<SourceFile>("m.mo");
  auto buf = llvm::MemoryBuffer::getMemBufferCopy(src);
  f->setMemoryBuffer(buf.get());
  Parser p(d, sm, f);
  auto r = p.parseRoot();
  if (!r) return c.text.empty() ? "rejected" : c.text;
  std::string s;
  llvm::raw_string_ostream os(s);
  os << (*r)->toJSON();
  root = std::move(*r);
  return s;
}
static std::string span(const ast::ASTNode &n) {
  auto l = n.getLocation();
  return std::to_string(l.begin.line) + ":" + std::to_string(l.begin.column) + "-" + std::to_string(l.end.line) + ":" +
         std::to_string(l.end.column);
}
