// Stand-in for the generated vt_git_revision.cc: a constant revision.
#include "vt/configs/generated/vt_git_revision.h"
#include <string>
int const vt_version_major = 1;
int const vt_version_minor = 0;
int const vt_version_patch = 0;
std::string const vt_git_sha1 = "simulated";
std::string const vt_git_exact_tag = "";
std::string const vt_git_refspec = "";
std::string const vt_git_description = "";
std::string const vt_git_clean_status = "CLEAN";
