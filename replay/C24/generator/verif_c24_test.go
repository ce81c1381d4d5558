package generator

import (
	"testing"
)

func TestVerifC24(t *testing.T) {
	verifRender(verifStart(t), 20000, func(b *verifBook) interface{} { return b.m[b.token(3)] })
}

func TestVerifC24Marker(t *testing.T) {
	v := verifStart(t)
	for v.more(2000) {
		in, want := "", ""
		for i := v.rnd.Intn(6); i > 0; i-- {
			switch v.rnd.Intn(8) {
			case 0:
				in, want = in+"$$MARKER_BOLD_OPEN$$", want+"<b>"
			case 1:
				in, want = in+"$$MARKER_BOLD_CLOSE$$", want+"</b>"
			case 2:
				in, want = in+"$$MARKER_ITALIC_OPEN$$", want+"<i>"
			case 3:
				in, want = in+"$$MARKER_ITALIC_CLOSE$$", want+"</i>"
			case 4:
				in, want = in+"$$MARKER_PARAGRAPH$$", want+"<br><br>"
			default:
				p := v.pick("a", " b ", "$5", "\n", "ä")
				in, want = in+p, want+p
			}
		}
		v.try(in, func() {
			got, err := expand(&HtmlGenerator{}, in)
			if err != nil || got != want {
				v.fail("markers of %q: got %q (%v) instead of %q", in, got, err, want)
			}
		})
	}
}
