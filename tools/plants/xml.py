XML = r'''
n() { echo "<note><pitch><step>$1</step>$5<octave>$2</octave></pitch><duration>$3</duration><voice>1</voice>$4</note>"; }
r() { echo "<note><rest/><duration>$1</duration><voice>1</voice></note>"; }
u() { echo "<note><unpitched/><duration>$2</duration><instrument id=\"$1\"/><voice>1</voice></note>"; }
m() { echo "<measure>$*</measure>"; }
D='<attributes><divisions>4</divisions></attributes>'
imported() {
  echo '<?xml version="1.0"?><score-partwise version="3.1"><part-list><score-part id="P1"><part-name>M</part-name>'"$HEADER"'</score-part></part-list><part id="P1">'"$*"'</part></score-partwise>' > "$tmp/x.xml"
  "$tmp/alda" import -i musicxml -f "$tmp/x.xml" -o "$tmp/x.alda" 2> "$tmp/err" || { cat "$tmp/err"; return 1; }
  cat "$tmp/x.alda"
  notes "$(cat "$tmp/x.alda")" > "$tmp/imported"
}
plays() { notes "$1" > "$tmp/expected" && [ -s "$tmp/expected" ] && diff "$tmp/expected" "$tmp/imported"; }
'''
plant("c18-ten-beats", "C18", "a length of ten beats, or another that is made of two whole notes and one shorter note",
 "a length of several whole notes and a half note is taken for a dotted whole note",
 [("interop/musicxml/importer/util.go", "if decomp[normal[i]] == 1 && decomp[normal[i+1]] == 1 {", "if decomp[normal[i]] > 0 && decomp[normal[i+1]] > 0 {")],
 XML + r'''
imported "$(m "$D$(n C 4 40)")$(m "$(n D 4 16)")" || exit 1
plays 'piano: o4 c1~1~2 d1'
''')
plant("c19-empty-repeat", "C19", "a repeat that starts at the end of a measure",
 "the importer crashes where a repeat starts with the barline that ends a measure",
 [("interop/musicxml/importer/handlers.go", "	if len(importer.updates()) == 0 {\n		importer.append(model.Barline{})", "	if len(importer.flatUpdates()) == 0 {\n		importer.append(model.Barline{})")],
 XML + r'''
imported "$(m "$D$(n C 4 16)<barline location=\"right\"><repeat direction=\"forward\"/></barline>")$(m "$(n D 4 16)<barline location=\"right\"><repeat direction=\"backward\"/></barline>")" || exit 1
plays 'piano: o4 c1 d d'
''')
plant("c18-key-change", "C18", "a change to a key with some, but not all, of the accidentals of the key before",
 "the importer keeps leaving out accidentals by the old key",
 [("interop/musicxml/importer/optimizer.go", "				different := len(deep.Equal(\n					opt.currentKeySignature, typedPartUpdate.KeySignature,\n				)) > 0\n", "				different := len(typedPartUpdate.KeySignature) == 0\n				for letter, accidentals := range typedPartUpdate.KeySignature {\n					different = different || len(deep.Equal(\n						opt.currentKeySignature[letter], accidentals,\n					)) > 0\n				}\n")],
 XML + r'''
imported "$(m "<attributes><divisions>4</divisions><key><fifths>2</fifths></key></attributes>$(n F 4 8 "" "<alter>1</alter>")$(n C 4 8 "" "<alter>1</alter>")")$(m "<attributes><key><fifths>1</fifths></key></attributes>$(n F 4 8 "" "<alter>1</alter>")$(n C 4 8 "" "<alter>1</alter>")")" || exit 1
plays 'piano: o4 f+2 c+ f+ c+'
''')
