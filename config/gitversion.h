#define GIT_HEAD_ID "f2e9b62"
