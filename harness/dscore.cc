// scores of single translations by a document scorer: dscore METRIC ; input lines: reference \t translation
#include "scorer.h"
#include "tdict.h"
#include <cstdio>
#include <iostream>
#include <string>
using namespace std;
int main(int, char** argv) {
  ScoreType t = ScoreTypeFromString(argv[1]); string l;
  while (getline(cin, l)) { size_t p = l.find('\t'); vector<vector<WordID> > refs(1); TD::ConvertSentence(l.substr(0, p), &refs[0]); vector<WordID> h; TD::ConvertSentence(l.substr(p + 1), &h); printf("%.9g\n", SentenceScorer::CreateSentenceScorer(t, refs, "")->ScoreCandidate(h)->ComputeScore()); }
}
