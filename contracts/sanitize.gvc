# Replacing single characters everywhere, and what SanitizeFilename makes out of a name.
pure extern strings.ReplaceAll(s, old, new) (r) as replaceAll
rec fuel 5 spec rep(s string, c string, x string) string = ite(s == "", "", ite(s[0:1] == c, x, s[0:1]) + rep(s[1:], c, x))
axiom replaceOneCharacter(s string, c string, x string)
  note "ReplaceAll of a single (ASCII) character replaces it everywhere"
  requires len(c) == 1
  ensures replaceAll(s, c, x) == rep(s, c, x)
  trigger replaceAll(s, c, x)
lemma headOfConcat(a string, b string)
  requires len(a) > 0
  ensures (a + b)[0:1] == a[0:1]
lemma tailOfConcat(a string, b string)
  requires len(a) > 0
  ensures (a + b)[1:] == a[1:] + b
lemma repStep(s string, c string, x string)
  requires len(s) > 0
  ensures rep(s, c, x) == ite(s[0:1] == c, x, s[0:1]) + rep(s[1:], c, x)
lemma repEmpty(c string, x string)
  ensures rep("", c, x) == ""
lemma repConcat(a string, b string, c string, x string)
  ensures rep(a + b, c, x) == rep(a, c, x) + rep(b, c, x)
  induct a
  by repEmpty(c, x)
  by headOfConcat(a, b)
  by tailOfConcat(a, b)
  by repStep(a, c, x)
  by repStep(a + b, c, x)
  hide rep

# replacements of different characters can be done in any order (used to sort them, see replaceAllTerm in lib.go)
lemma commuteOne(h string, c string, x string, d string, y string)
  requires len(h) == 1 && len(c) == 1 && len(d) == 1 && c != d && rep(y, c, x) == y && rep(x, d, y) == x
  ensures rep(rep(h, c, x), d, y) == rep(rep(h, d, y), c, x)
lemma untouched(x string, c string, y string)
  requires len(c) == 1 && !contains(x, c)
  ensures rep(x, c, y) == x
  induct x
  by repEmpty(c, y)
  by repStep(x, c, y)
  hide rep
lemma replacementsCommute(s string, c string, x string, d string, y string)
  requires len(c) == 1 && len(d) == 1 && c != d && !contains(x, d) && !contains(y, c)
  ensures rep(rep(s, c, x), d, y) == rep(rep(s, d, y), c, x)
  induct s
  by repEmpty(c, x)
  by repEmpty(d, y)
  by untouched(x, d, y)
  by untouched(y, c, x)
  by repStep(s, c, x)
  by repStep(s, d, y)
  by repConcat(ite(s[0:1] == c, x, s[0:1]), rep(s[1:], c, x), d, y)
  by repConcat(ite(s[0:1] == d, y, s[0:1]), rep(s[1:], d, y), c, x)
  by commuteOne(s[0:1], c, x, d, y)
  by repStep(s[0:1], c, x)
  by repStep(s[0:1], d, y)
  hide rep

spec enc0(c string) string = c
spec san0(s string) string = s
spec enc1(c string) string = ite(c == "%", "%25", c)
spec san1(s string) string = rep(san0(s), "%", "%25")
lemma encStep1(c string)
  requires len(c) == 1
  ensures rep(enc0(c), "%", "%25") == enc1(c)
lemma sanStep1(s string)
  requires len(s) > 0
  ensures san1(s) == enc1(s[0:1]) + san1(s[1:])
  by repConcat(enc0(s[0:1]), san0(s[1:]), "%", "%25")
  by encStep1(s[0:1])
  hide rep
spec enc2(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", c))
spec san2(s string) string = rep(san1(s), "\"", "%22")
lemma encStep2(c string)
  requires len(c) == 1
  ensures rep(enc1(c), "\"", "%22") == enc2(c)
lemma sanStep2(s string)
  requires len(s) > 0
  ensures san2(s) == enc2(s[0:1]) + san2(s[1:])
  by sanStep1(s)
  by repConcat(enc1(s[0:1]), san1(s[1:]), "\"", "%22")
  by encStep2(s[0:1])
  hide rep
spec enc3(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", ite(c == "*", "%2A", c)))
spec san3(s string) string = rep(san2(s), "*", "%2A")
lemma encStep3(c string)
  requires len(c) == 1
  ensures rep(enc2(c), "*", "%2A") == enc3(c)
lemma sanStep3(s string)
  requires len(s) > 0
  ensures san3(s) == enc3(s[0:1]) + san3(s[1:])
  by sanStep2(s)
  by repConcat(enc2(s[0:1]), san2(s[1:]), "*", "%2A")
  by encStep3(s[0:1])
  hide rep
spec enc4(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", ite(c == "*", "%2A", ite(c == "/", "%2F", c))))
spec san4(s string) string = rep(san3(s), "/", "%2F")
lemma encStep4(c string)
  requires len(c) == 1
  ensures rep(enc3(c), "/", "%2F") == enc4(c)
lemma sanStep4(s string)
  requires len(s) > 0
  ensures san4(s) == enc4(s[0:1]) + san4(s[1:])
  by sanStep3(s)
  by repConcat(enc3(s[0:1]), san3(s[1:]), "/", "%2F")
  by encStep4(s[0:1])
  hide rep
spec enc5(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", ite(c == "*", "%2A", ite(c == "/", "%2F", ite(c == ":", "%3A", c)))))
spec san5(s string) string = rep(san4(s), ":", "%3A")
lemma encStep5(c string)
  requires len(c) == 1
  ensures rep(enc4(c), ":", "%3A") == enc5(c)
lemma sanStep5(s string)
  requires len(s) > 0
  ensures san5(s) == enc5(s[0:1]) + san5(s[1:])
  by sanStep4(s)
  by repConcat(enc4(s[0:1]), san4(s[1:]), ":", "%3A")
  by encStep5(s[0:1])
  hide rep
spec enc6(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", ite(c == "*", "%2A", ite(c == "/", "%2F", ite(c == ":", "%3A", ite(c == "<", "%3C", c))))))
spec san6(s string) string = rep(san5(s), "<", "%3C")
lemma encStep6(c string)
  requires len(c) == 1
  ensures rep(enc5(c), "<", "%3C") == enc6(c)
lemma sanStep6(s string)
  requires len(s) > 0
  ensures san6(s) == enc6(s[0:1]) + san6(s[1:])
  by sanStep5(s)
  by repConcat(enc5(s[0:1]), san5(s[1:]), "<", "%3C")
  by encStep6(s[0:1])
  hide rep
spec enc7(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", ite(c == "*", "%2A", ite(c == "/", "%2F", ite(c == ":", "%3A", ite(c == "<", "%3C", ite(c == ">", "%3E", c)))))))
spec san7(s string) string = rep(san6(s), ">", "%3E")
lemma encStep7(c string)
  requires len(c) == 1
  ensures rep(enc6(c), ">", "%3E") == enc7(c)
lemma sanStep7(s string)
  requires len(s) > 0
  ensures san7(s) == enc7(s[0:1]) + san7(s[1:])
  by sanStep6(s)
  by repConcat(enc6(s[0:1]), san6(s[1:]), ">", "%3E")
  by encStep7(s[0:1])
  hide rep
spec enc8(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", ite(c == "*", "%2A", ite(c == "/", "%2F", ite(c == ":", "%3A", ite(c == "<", "%3C", ite(c == ">", "%3E", ite(c == "?", "%3F", c))))))))
spec san8(s string) string = rep(san7(s), "?", "%3F")
lemma encStep8(c string)
  requires len(c) == 1
  ensures rep(enc7(c), "?", "%3F") == enc8(c)
lemma sanStep8(s string)
  requires len(s) > 0
  ensures san8(s) == enc8(s[0:1]) + san8(s[1:])
  by sanStep7(s)
  by repConcat(enc7(s[0:1]), san7(s[1:]), "?", "%3F")
  by encStep8(s[0:1])
  hide rep
spec enc9(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", ite(c == "*", "%2A", ite(c == "/", "%2F", ite(c == ":", "%3A", ite(c == "<", "%3C", ite(c == ">", "%3E", ite(c == "?", "%3F", ite(c == "\\", "%5C", c)))))))))
spec san9(s string) string = rep(san8(s), "\\", "%5C")
lemma encStep9(c string)
  requires len(c) == 1
  ensures rep(enc8(c), "\\", "%5C") == enc9(c)
lemma sanStep9(s string)
  requires len(s) > 0
  ensures san9(s) == enc9(s[0:1]) + san9(s[1:])
  by sanStep8(s)
  by repConcat(enc8(s[0:1]), san8(s[1:]), "\\", "%5C")
  by encStep9(s[0:1])
  hide rep
spec enc10(c string) string = ite(c == "%", "%25", ite(c == "\"", "%22", ite(c == "*", "%2A", ite(c == "/", "%2F", ite(c == ":", "%3A", ite(c == "<", "%3C", ite(c == ">", "%3E", ite(c == "?", "%3F", ite(c == "\\", "%5C", ite(c == "|", "%7C", c))))))))))
spec san10(s string) string = rep(san9(s), "|", "%7C")
lemma encStep10(c string)
  requires len(c) == 1
  ensures rep(enc9(c), "|", "%7C") == enc10(c)
lemma sanStep10(s string)
  requires len(s) > 0
  ensures san10(s) == enc10(s[0:1]) + san10(s[1:])
  by sanStep9(s)
  by repConcat(enc9(s[0:1]), san9(s[1:]), "|", "%7C")
  by encStep10(s[0:1])
  hide rep
lemma sanEmpty()
  ensures san10("") == ""
spec sanitized(s string) string = san10(s)


# percent decoding of what the sanitising encodes
spec code(h string) string = ite(h == "25", "%", ite(h == "3C", "<", ite(h == "3E", ">", ite(h == "3A", ":", ite(h == "22", "\"",
  ite(h == "2F", "/", ite(h == "5C", "\\", ite(h == "7C", "|", ite(h == "3F", "?", ite(h == "2A", "*", "?"))))))))))
rec fuel 2 spec decode(s string) string = ite(s == "", "", ite(s[0:1] == "%", code(s[1:3]) + decode(s[3:]), s[0:1] + decode(s[1:])))

lemma decodeFirst(c string, t string)
  requires len(c) == 1
  ensures decode(enc10(c) + t) == c + decode(t)
lemma decodeEmpty()
  ensures decode("") == ""
lemma reversible(s string)
  ensures decode(sanitized(s)) == s
  induct s
  by sanEmpty()
  by decodeEmpty()
  by sanStep10(s)
  by decodeFirst(s[0:1], sanitized(s[1:]))
  hide rep, decode
  trigger sanitized(s)
