#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place where property texts are edited)."""
import json, os
H = 'converter21/humdrum/'
M = 'converter21/mei/'
S = 'converter21/shared/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': a, 'where': b} for a, b in mech],
                    'observe_at': observe or [], 'hook_needed': None}})


prop('C01', 'Humdrum spine manipulators yield exactly the defined spine graph',
     'For every Humdrum text whose spine manipulators (start, split, merge, exchange, add, terminate) '
     'are used legally, the parsed file is valid and every token gets the track number, sub-spine number, '
     'spine history, data type and previous/next-token links that the Humdrum syntax defines, and printing '
     'the file reproduces the text. '
     'An illegal line (field count different from the number of active spines, a lone merge or exchange, '
     'data after all spines ended, no exclusive interpretation) makes the file invalid, with an error.',
     ['inputs', 'histories'],
     'all sequences of spine-manipulator lines, interleaved with data, comment, null and barline lines',
     'The tests parse a fixed set of well-formed files; the reachable spine configurations are a state machine '
     'whose transition sequences (split inside split, merge of unequal histories, exchange then merge, add then '
     'terminate) are mostly never visited by them.',
     [H + 'humdrumfilebase.py', H + 'humdrumline.py', H + 'humdrumtoken.py', H + 'humaddress.py'],
     [('spine analysis and manipulator handling', H + 'humdrumfilebase.py'),
      ('token linking', H + 'humdrumfilebase.py'), ('line creation/printing', H + 'humdrumline.py')],
     ['public token/line accessors of a parsed Humdrum file'])

prop('C02', 'Humdrum line and token timing follows the rhythms of the file',
     'For every well-formed Humdrum file, each line\'s start time and duration, each token\'s start time, the '
     'time from and to the enclosing barlines, the null-token resolutions and the total file duration equal those '
     'given by adding up the written rhythms (dots, tuplets, breves, grace notes of zero length). '
     'Files whose simultaneous spines disagree about the time of a line are rejected with an error, and never '
     'given a wrong time silently.',
     ['inputs'],
     'all rhythm sequences, in one to three spines with splits and merges, up to the bound',
     'The tests look at the final notation of a few files; they never compare the time of every line with an '
     'independent clock and contain no inconsistent rhythms.',
     [H + 'humdrumfilestructure.py', H + 'humdrumtoken.py', H + 'humdrumline.py', H + 'convert.py'],
     [('rhythm structure analysis', H + 'humdrumfilestructure.py')],
     ['line/token time accessors'])

prop('C03', 'Malformed Humdrum is rejected, or repaired when that is asked for',
     'Whatever text is given as Humdrum, strict parsing ends without an exception: either the file is accepted, or it is '
     'reported as invalid (isValid, parseError, c21_parse_err on an empty score) and no music is produced from it; a file '
     'whose spine structure is illegal is never accepted. '
     'When the caller asks for syntax errors to be accepted, parsing and conversion never raise an exception. '
     'Trailing or double tabs, a missing terminator, text after the last terminator, and a wrong field count on a data, '
     'barline, comment or tandem line are repaired: the file becomes valid, and, except for surplus fields, the notes of '
     'the other lines are all imported (unchanged and in place when no rhythm was lost with the missing field).',
     ['inputs', 'fault_sequences'],
     'all texts obtained from well-formed files by the single and double faults of a fault menu, at every position',
     'The tests contain two or three hand-made malformed files; faults at every line and every field of every kind are '
     'beyond them.',
     [H + 'humdrumfilebase.py', H + 'humdrumline.py', H + 'humdrumfile.py', 'converter21/HumdrumConverter.py'],
     [('strict/accepting parse', H + 'humdrumfilebase.py'), ('error propagation to the converter', 'converter21/HumdrumConverter.py')],
     ['validity flag, raised exceptions, resulting score'])

N = ('pitch (step, octave, alteration), onset and length of every note, rest and chord, including dots, tuplets, '
     'grace notes, invisible rests, their part, staff, measure and voice')
prop('C04', 'Humdrum import keeps every note, rest and chord in place',
     'Importing any well-formed Humdrum score yields a music21 score with exactly the written music: ' + N + '. '
     'Nothing is added, lost, duplicated, reordered or moved in time.',
     ['inputs'],
     'all small scores over the rhythm/pitch/voice/staff/measure alphabet',
     'The tests import a fixed list of files and mainly check that nothing raises or compare one output.',
     [H + 'humdrumfile.py', H + 'm21convert.py', H + 'convert.py', H + 'humdrumtoken.py'],
     [('note/rest/chord creation', H + 'humdrumfile.py'), ('pitch/duration conversion', H + 'm21convert.py')],
     ['notes of the resulting score'])
prop('C05', 'Humdrum export writes every note, rest and chord',
     'Exporting any music21 score to Humdrum gives a valid Humdrum file that contains exactly the score\'s music: '
     + N + '. Notes whose lengths cannot be written as one symbol are split into tied notes of the same total '
     'length, and gaps are filled with invisible rests, so that the sounding result is the same.',
     ['inputs'], 'all small scores over the rhythm/pitch/voice/staff/measure alphabet, built directly or imported',
     'The tests write the files they have just read; scores made in music21 or from the other format, and most '
     'combinations of voices, staves and irregular rhythms, are not reached.',
     [H + 'humdrumwriter.py', H + 'humgrid.py', H + 'gridmeasure.py', H + 'gridslice.py', H + 'measuredata.py',
      H + 'eventdata.py', H + 'm21convert.py', S + 'm21utilities.py'],
     [('score to grid to Humdrum', H + 'humgrid.py'), ('event tokens', H + 'm21convert.py')],
     ['text written, re-parsed'])
prop('C06', 'MEI import keeps every note, rest and chord in place',
     'Importing any MEI score of the supported vocabulary yields a music21 score with exactly the written music: ' + N
     + ', whether values are written as attributes, child elements or inherited definitions. '
     'Nothing is added, lost, duplicated, reordered or moved in time.',
     ['inputs'], 'all small scores over the rhythm/pitch/layer/staff/measure alphabet, in all encodings of each fact',
     'The unit tests feed single elements with mocks; whole-document combinations are not reached.',
     [M + 'meireader.py', M + 'meishared.py'],
     [('element conversion', M + 'meireader.py')], ['notes of the resulting score'])
prop('C07', 'MEI export writes every note, rest and chord as a sound document',
     'Exporting any music21 score to MEI gives well-formed XML with unique identifiers, every internal reference '
     'resolving to an element of the document, that contains exactly the score\'s music: ' + N + '. '
     'This holds for each supported MEI version.',
     ['inputs', 'configurations'], 'all small scores over the rhythm/pitch/voice/staff/measure alphabet, built directly or imported; both MEI versions',
     'The tests write imported files and at most look for exceptions; identifiers, references and content of the '
     'document are not examined.',
     [M + 'meiwriter.py', M + 'meiscore.py', M + 'meimeasure.py', M + 'meistaff.py', M + 'meilayer.py',
      M + 'm21objectconvert.py', M + 'meielement.py', S + 'm21utilities.py'],
     [('MEI tree construction', M + 'meiscore.py'), ('event elements', M + 'm21objectconvert.py')],
     ['XML text written'])

SURV = 'survive import from Humdrum, import from MEI, export to Humdrum, export to MEI and every conversion between the two formats'
ENUM = 'all placements of the feature in the small scores of the alphabet (part, voice, measure, chord, grace note, tuplet), every value of its vocabulary, every route between the formats'
WHY = ('The tests convert a fixed set of files and check for the absence of errors or one printed result; which value, '
       'position, voice or route is exercised is an accident of those files.')

prop('C08', 'Clefs, key and time signatures, barlines, repeats and endings are kept',
     'Clefs (all shapes, lines and octave changes, at any point in a measure), key signatures, time signatures '
     '(including common and cut time), barline styles, repeat marks, numbered endings, and pickup and '
     'incomplete measures with their numbers ' + SURV + ', at the same place and with the same value.',
     ['inputs'], ENUM, WHY,
     [H + 'humdrumfile.py', H + 'm21convert.py', H + 'humgrid.py', H + 'gridmeasure.py', H + 'measuredata.py', M + 'meireader.py',
      M + 'meimeasure.py', M + 'meiscore.py', M + 'm21objectconvert.py'],
     [('interpretation/barline conversion', H + 'm21convert.py'), ('staffDef/scoreDef/measure attributes', M + 'm21objectconvert.py')])
prop('C09', 'Ties and slurs connect the same notes after every conversion',
     'Ties (start, continue, end, per chord note, across barlines and voices) and slurs (nested, overlapping, across '
     'measures, on chords and grace notes, with placement) ' + SURV + ', joining exactly the same notes.',
     ['inputs'], ENUM, WHY,
     [H + 'humdrumfile.py', H + 'humdrumfilecontent.py', H + 'm21convert.py', H + 'humdrumwriter.py', M + 'meireader.py',
      M + 'm21objectconvert.py', M + 'meiscore.py'],
     [('slur linking', H + 'humdrumfilecontent.py'), ('tie processing', H + 'humdrumfile.py')])
prop('C10', 'Articulations, ornaments, fermatas and arpeggios stay on their notes',
     'Articulations, ornaments (trills with and without extension, mordents, turns and their accidentals), fermatas, '
     'arpeggios and breath marks, with their placement, ' + SURV + ', on exactly the same notes.',
     ['inputs'], ENUM, WHY,
     [H + 'humdrumfile.py', H + 'm21convert.py', M + 'meireader.py', M + 'm21objectconvert.py', M + 'meiscore.py'],
     [('articulation/ornament tables', H + 'm21convert.py'), ('control events', M + 'm21objectconvert.py')])
prop('C11', 'Beams and tuplets keep their grouping and ratio',
     'Beams (start, continue, stop, partial beams at every level) and tuplets (ratio, members, bracket start and '
     'end) ' + SURV + ', with the same grouping of notes and unchanged sounding lengths.',
     ['inputs'], ENUM, WHY,
     [H + 'humdrumfile.py', H + 'humdrumfilecontent.py', H + 'm21convert.py', M + 'meireader.py', M + 'meilayer.py',
      M + 'm21objectconvert.py', S + 'm21utilities.py'],
     [('beam/tuplet analysis', H + 'humdrumfile.py'), ('beam/tuplet elements', M + 'meilayer.py')])
prop('C12', 'Lyrics keep their text, syllable linkage, verse and note',
     'Lyric syllables (text of any characters, begin/middle/end/single linkage, elisions, several verses) '
     + SURV + ', on the same note and in the same verse.',
     ['inputs'], ENUM, WHY,
     [H + 'humdrumfile.py', H + 'm21convert.py', H + 'gridside.py', H + 'humdrumwriter.py', M + 'meireader.py', M + 'm21objectconvert.py'],
     [('text spines', H + 'humdrumfile.py'), ('verse/syl elements', M + 'm21objectconvert.py')])
prop('C13', 'Dynamics and hairpins keep their value, extent and staff',
     'Dynamic marks and crescendo/diminuendo hairpins ' + SURV + ', with the same value, staff, placement and start, '
     'and for hairpins the same end.',
     ['inputs'], ENUM, WHY,
     [H + 'humdrumfile.py', H + 'humdrumwriter.py', H + 'measuredata.py', H + 'eventdata.py', H + 'm21convert.py',
      M + 'meireader.py', M + 'm21objectconvert.py', M + 'meiscore.py'],
     [('dynamics spines', H + 'humdrumfile.py'), ('dynam/hairpin elements', M + 'm21objectconvert.py')])
prop('C14', 'Tempo marks, text directions and rehearsal marks are kept',
     'Tempo marks (text, beat unit, number), text directions (with font style and placement) and rehearsal marks '
     + SURV + ', at the same moment and with the same content.',
     ['inputs'], ENUM, WHY,
     [H + 'humdrumfile.py', H + 'humdrumwriter.py', H + 'm21convert.py', M + 'meireader.py', M + 'm21objectconvert.py', S + 'm21utilities.py'],
     [('layout text/tempo handling', H + 'm21convert.py'), ('tempo/dir/reh elements', M + 'm21objectconvert.py')])
prop('C15', 'Accidentals are displayed exactly where they were',
     'The written alteration and whether an accidental is shown, shown as editorial/cautionary, or hidden '
     + SURV + ' for every note, under any key signature and any earlier accidental in the measure.',
     ['inputs'], 'all short note sequences over one staff position and its octaves with every alteration, key signature and display mark',
     WHY,
     [H + 'humdrumfile.py', H + 'humdrumfilecontent.py', H + 'm21convert.py', M + 'meireader.py', M + 'm21objectconvert.py', S + 'm21utilities.py'],
     [('accidental state analysis', H + 'humdrumfilecontent.py'), ('accid/accid.ges', M + 'm21objectconvert.py')])
prop('C16', 'Ottavas and transposing instruments keep sounding and written pitch',
     'For every ottava and for every transposing instrument, both the sounding and the written pitch of every note '
     + SURV + '.',
     ['inputs'], ENUM, WHY,
     [H + 'humdrumfile.py', H + 'humdrumwriter.py', H + 'm21convert.py', M + 'meireader.py', M + 'm21objectconvert.py',
      M + 'meiscore.py', S + 'm21utilities.py'],
     [('transposition handling', H + 'humdrumfile.py'), ('octave elements, trans attributes', M + 'm21objectconvert.py')])
prop('C17', 'Chord symbols keep root, quality, alterations and bass',
     'Every chord symbol (root, kind, added/altered/omitted degrees, inversion bass, no-chord) ' + SURV
     + ' as the same chord at the same moment; converting a chord symbol to its Harte text and back is the identity.',
     ['inputs'], 'all roots × kinds × bass × degree modifications of the vocabulary',
     WHY,
     [H + 'm21convert.py', H + 'humdrumfile.py', H + 'humdrumwriter.py', M + 'meireader.py', M + 'm21objectconvert.py', S + 'm21utilities.py'],
     [('Harte text to/from chord symbol', S + 'm21utilities.py')])
prop('C18', 'Metadata is preserved through every conversion',
     'Every metadata item that the two formats can express (title, composer and other contributors with roles, dates, '
     'numbers, languages, movement names, copyright, custom items), with any text and multiplicity, ' + SURV
     + ' with the same meaning, text and order, and unknown Humdrum reference records are kept verbatim.',
     ['inputs'], 'all reference keys and metadata names of the vocabulary, alone and in pairs, with texts from a hostile-character alphabet and languages',
     WHY,
     [H + 'humdrumfile.py', H + 'humdrumwriter.py', M + 'meimetadata.py', M + 'meimetadatareader.py', S + 'm21utilities.py', S + 'sharedconstants.py'],
     [('reference key tables', S + 'sharedconstants.py'), ('metadata writer/reader', M + 'meimetadata.py')])
prop('C19', 'Date strings keep their meaning in both formats',
     'Every date, date range, set of alternatives, approximate or uncertain date that the Humdrum date syntax can express '
     'is parsed to exactly that meaning and written back, to Humdrum and to ISO/EDTF date attributes, as an equivalent date; '
     'strings that are not dates are reported as such and not turned into a wrong date.',
     ['inputs'], 'all date expressions over years (AD and BC), partial dates, approximation/uncertainty flags, ranges and lists',
     WHY, [S + 'm21utilities.py', M + 'meimetadata.py', M + 'meimetadatareader.py'],
     [('date parsing and printing', S + 'm21utilities.py')])
prop('C20', 'Staff grouping, instruments and part order are preserved',
     'The order of the parts, their names and abbreviations, multi-staff parts, and the nesting, bracket symbol '
     'and barline style of staff groups ' + SURV + '.',
     ['inputs'], 'all part counts up to the bound, all nested groupings of them, every symbol and barline setting, all name assignments',
     WHY, [H + 'humdrumfile.py', H + 'humdrumwriter.py', H + 'scoredata.py', H + 'partdata.py', M + 'meiscore.py', M + 'meireader.py', S + 'm21utilities.py'],
     [('staff group trees', S + 'm21utilities.py')])
prop('C21', 'Exporting never changes the score and always gives the same result',
     'Writing a score to either format, with any option, leaves the caller\'s score as it was, and writing it '
     'again (immediately, after writing to the other format, or in another process) gives the same document '
     '(apart from time stamps and generated identifiers).',
     ['histories', 'configurations', 'inputs'], 'all sequences of writer calls with all option settings on the feature scores',
     'The tests write each score once.',
     [H + 'humdrumwriter.py', M + 'meiwriter.py', M + 'meiscore.py', S + 'm21utilities.py', 'converter21/HumdrumConverter.py', 'converter21/MEIConverter.py'],
     [('copy before modification', H + 'humdrumwriter.py'), ('copy before modification', M + 'meiwriter.py')])
prop('C22', 'The result of a conversion does not depend on earlier conversions',
     'Whatever files were parsed or written before in the same process, successfully or not, the result of parsing or '
     'writing a file is the same as in a fresh process.',
     ['histories'], 'all sequences of parse/write operations, valid and failing, up to the bound',
     'Each test starts from the state left by whatever ran before and never compares.',
     [H + 'convert.py', H + 'humdrumfile.py', H + 'humdrumfilebase.py', H + 'humsignifiers.py', M + 'meireader.py', M + 'm21objectconvert.py', S + 'm21utilities.py'],
     [('per-object state', H + 'humdrumfile.py')])
prop('C23', 'Pitch, rhythm and interval text conversions are exact and invertible',
     'Converting Humdrum rhythm values, kern pitches, pitch-class numbers and transposition codes to numbers or music21 objects '
     'is exact for every value, converting back gives the same value, and the result never depends on earlier calls.',
     ['inputs', 'histories'], 'all values of the vocabularies (letters, octaves, alterations, rhythm denominators, dots, ratios, intervals), all call orders of pairs',
     WHY, [H + 'convert.py', H + 'm21convert.py', S + 'm21utilities.py'],
     [('conversion functions', H + 'convert.py')])
prop('C24', 'Files are found, decoded and converted by every public entry point',
     'For each supported file extension, text encoding and line ending, reading through the command line, the registered '
     'music21 converters and the library gives the same score, and writing through each of them gives the same document; '
     'a failing conversion gives an error and no output that looks like success.',
     ['configurations', 'inputs'], 'all entry points × formats × encodings × line endings × option combinations',
     'The tests read UTF-8 or Latin-1 files by one entry point.',
     ['converter21/__main__.py', 'converter21/__init__.py', 'converter21/HumdrumConverter.py', 'converter21/MEIConverter.py', H + 'humdrumfilebase.py', M + 'meiwriter.py'],
     [('converter registration and command line', 'converter21/__main__.py')])
prop('C25', 'Score clean-up before export keeps the music and removes what cannot be written',
     'Before export, durations that cannot be written are replaced by equivalent writable ones (tied notes, split rests), '
     'objects other than complete scores (notes, streams, parts without measures, ...) are wrapped so that they can be written, '
     'gaps, short measures and parts with missing measures (Humdrum) are filled up, '
     'without changing any sounding note, its onset within its measure or its total length; overlapping notes of one voice are moved '
     'apart in order, keeping their pitches and lengths.',
     ['inputs'], 'all duration values of the alphabet at every offset, all music21 object kinds accepted for export',
     WHY, [S + 'm21utilities.py', H + 'humdrumwriter.py', M + 'meiwriter.py'],
     [('duration fix-ups', S + 'm21utilities.py')])
prop('C26', 'Tremolos and repeated-note abbreviations keep pitch and total length',
     'Bowed and fingered tremolos keep their notes, speed and total length when imported, exported, expanded or '
     'converted between formats.',
     ['inputs', 'configurations'], ENUM, WHY,
     [H + 'humdrumfilecontent.py', H + 'humdrumfile.py', H + 'humdrumwriter.py', M + 'meireader.py', M + 'm21objectconvert.py', M + 'meilayer.py'],
     [('tremolo analysis/expansion', H + 'humdrumfilecontent.py')])
prop('C27', 'Humdrum layout parameters and key/value stores behave as documented',
     'Layout parameters written before a token or line apply to exactly the tokens they precede in their spine, and are read with '
     'their exact keys and values; the key/value stores of tokens, lines and files return what was last stored, and nothing else.',
     ['histories', 'inputs'], 'all operation sequences on the store up to the bound, all placements of layout comments',
     WHY, [H + 'humhash.py', H + 'humparamset.py', H + 'humdrumfilecontent.py', H + 'humdrumfilestructure.py', H + 'humdrumtoken.py'],
     [('parameter parsing and linking', H + 'humdrumfilestructure.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
