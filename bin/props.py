"""Configuration of the check of each property."""
RULE_TRACE = ('each event is one public call on a generated input together with everything it returned; inputs are '
              'deduplicated, so events are distinct; TLC accepts an event only if the specification yields exactly these results')
NOTE_TRACE = ('Every recorded call agrees with the specification; the specification itself is model-checked. Inputs are generated '
              '(small exhaustive families plus seeded random ones), so unsampled inputs are covered only by the uniformity of the code.')
PROPS = {}
def trace(p, **kw):
    PROPS[p] = dict(rule=RULE_TRACE, note=NOTE_TRACE, **kw)
RESOLVE = ('ResolveCheck', 'ResolveCheck.cfg', 10000)
trace('C03', models=[('IriCheck', 'IriCheck.cfg', 20000), ('IriCheck', 'IriSplit.cfg', 9000)])
trace('C04', models=[('DotsCheck', 'DotsCheck.cfg', 50000), RESOLVE])
trace('C05', models=[RESOLVE])
trace('C06', models=[RESOLVE])
trace('C07', models=[RESOLVE])
trace('C08', models=[('UriCheck', 'UriCheck.cfg', 7000)])
trace('C09', models=[('UriCheck', 'PwCheck.cfg', 50000)])
trace('C10', models=[('MutateMC', 'MutateMC.cfg', 5000, True)])
RULE_DFA = ('words generated from the minimal automaton TLC derives from the ABNF: every string over the structural characters up '
            'to a length, transition cover with distinguishing suffixes (W-method), every code point in one state of each distinct '
            'behaviour and class borders in all states, long random words with damage; each is put to every validator and constructor')
NOTE_DFA = ('The oracle is the automaton TLC computes from the transcribed ABNF (checked in the model against the denotational reading of '
            'the ABNF). Agreement is exhaustive for short strings and for transition cover; longer strings are sampled.')
PROPS['C01'] = dict(rule=RULE_DFA, note=NOTE_DFA, automata='AutomatonC01.cfg', record=False,
                    models=[('AutomatonCheck', 'AutomatonCheckC01.cfg', 30000), ('AutomatonCheck', 'AutomatonCheckIp.cfg', 50000)],
                    technique='automata derived by TLC from a TLA+ transcription of the ABNF; generated words replayed into the validators')
PROPS['C02'] = dict(rule=RULE_DFA, note=NOTE_DFA, automata='AutomatonC02.cfg', record=False,
                    models=[('AutomatonCheck', 'AutomatonCheckC02.cfg', 30000), ('AutomatonCheck', 'AutomatonCheckReg.cfg', 80000)],
                    technique='automata derived by TLC from a TLA+ transcription of the ABNF; generated words replayed into the validators')
PROPS['C15'] = dict(rule=RULE_DFA, note=NOTE_DFA, automata='AutomatonC15.cfg',
                    models=[('AutomatonCheck', 'AutomatonCheckC15.cfg', 30000), ('VarsCheck', 'VarsCheck.cfg', 19000), ('VarsCheck', 'VarsDeep.cfg', 30000)],
                    technique='automata derived by TLC from a TLA+ transcription of the ABNF; generated words replayed into the validators')
trace('C11')
trace('C12', models=[('BuilderMC', 'BuilderMC.cfg', 9000, True)])
trace('C13', models=[('CodecMC', 'CodecEnc.cfg', 20000, True)])
trace('C14', models=[('CodecMC', 'CodecDec.cfg', 20000, True)])
TEMPLATES = [('TemplateMC', 'TemplateOne.cfg', 20000, True), ('TemplateMC', 'TemplateTwo.cfg', 30000, True)]
PREFIXES = ('PrefixMC', 'PrefixMC.cfg', 19000, True)
trace('C16', models=TEMPLATES + [PREFIXES])
trace('C17', models=TEMPLATES)
trace('C18', models=[('OrderCheck', 'OrderCheck.cfg', 30000)])
trace('C19', models=[('SinkMC', 'SinkMC.cfg', 20000, True)])
trace('C20', configs=['std', 'memchr', 'core'], agree=True, extra=['compare_builds'])
trace('C21', models=[('FaultMC', 'FaultMC.cfg', 40000, True)],
      # what a process does that may die is not seen by the coverage counters
      search=False)
