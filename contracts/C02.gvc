property C02
strict
use sanitize

verify util.SanitizeFilename
func util.SanitizeFilename(filename) (r)
  ensures [every special character is encoded and nothing else is changed] r == sanitized(filename)
  ensures [the original name can be computed again] decode(sanitized(filename)) == filename && decode(r) == filename
