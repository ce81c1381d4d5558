property C11

ghost reported bool

spec tmplOk(t string) bool = contains(t, "{INPUT}") && contains(t, "{OUTPUT}")
spec typeOk(t string) bool = t == "epub2" || t == "epub3" || t == "stats-json" || t == "stats-txt"
spec driverOk(d string) bool = d == "pandoc" || d == "internal"
# epub2 needs pandoc, the statistics need the internal driver, epub3 works with both
spec compatible(t string, d string) bool =
  t == "epub2" && d == "pandoc" || t == "epub3" && (d == "pandoc" || d == "internal") || (t == "stats-json" || t == "stats-txt") && d == "internal"
spec valid(c *config.Configuration) bool =
  typeOk(c.OutputType) && driverOk(c.OutputDriver) && compatible(c.OutputType, c.OutputDriver) &&
  (c.MathConverter == "none" || c.MathConverter == "wikimedia" || c.MathConverter == "template") &&
  0 <= c.TocDepth && c.TocDepth <= 6 && c.WorkerThreads >= 1 && c.CacheMaxSize > 0 && c.CacheMaxAge > 0 &&
  (c.CacheEvictionStrategy == "none" || c.CacheEvictionStrategy == "lru" || c.CacheEvictionStrategy == "largest") &&
  c.CommandTemplateMathSvgToPng != "" && tmplOk(c.CommandTemplateMathSvgToPng) &&
  (c.CommandTemplateSvgToPng == "" || tmplOk(c.CommandTemplateSvgToPng)) &&
  (c.CommandTemplateImageProcessing == "" || tmplOk(c.CommandTemplateImageProcessing)) &&
  (c.CommandTemplatePdfToPng == "" || tmplOk(c.CommandTemplatePdfToPng)) &&
  (c.CommandTemplateWebpToPng == "" || tmplOk(c.CommandTemplateWebpToPng))

verify config.VerifyOutputAndDriver, config.Configuration.AssertValidity, config.init$1

# Every validation message goes through the installed handler.
extern config.defaultValidationErrorHandler(err) 
  note "the installed validation error handler; the default one is verified separately (config.init$1)"
  requires err != nil
  modifies reported
  set reported := true

func config.VerifyOutputAndDriver(outputType, outputDriver) (r)
  ensures [accepts exactly the compatible pairs] (r == nil) <==> compatible(outputType, outputDriver)

func config.Configuration.AssertValidity(c)
  requires c != nil && !reported
  modifies reported
  ensures [a valid configuration is accepted] valid(c) ==> !reported
  ensures [an invalid configuration is rejected] !valid(c) ==> reported

# the default handler ends the program for every error
func config.init$1(err)
  ensures [an error never passes the default handler] err == nil
