// scores of single translations by a metric: mscore METRIC ; input lines: reference \t translation
#include "ns.h"
#include "tdict.h"
#include <cstdio>
#include <iostream>
#include <string>
using namespace std;
int main(int, char** argv) {
  EvaluationMetric* m = EvaluationMetric::Instance(argv[1]); string l;
  while (getline(cin, l)) { size_t t = l.find('\t'); vector<vector<WordID> > refs(1); TD::ConvertSentence(l.substr(0, t), &refs[0]); vector<WordID> h; TD::ConvertSentence(l.substr(t + 1), &h); SufficientStats s; m->CreateSegmentEvaluator(refs)->Evaluate(h, &s); float v = m->ComputeScore(s); printf("%.9g\n", v); }
}
