property C10
use paths

spec mem(xs []string, v string) bool = exists i in 0 .. len(xs): xs[i] == v
spec subset(a []string, b []string) bool = forall j in 0 .. len(a): mem(b, a[j])
# two lists of names are the same setting if they consist of the same entries
opaque spec sameEntries(a []string, b []string) bool = len(a) == len(b) && subset(a, b) && subset(b, a)
opaque spec sameList(a []string, b []string) bool = len(a) == len(b) && (forall i in 0 .. len(a): a[i] == b[i])

verify util.EqualsInAnyOrder, config.MergeIntoCurrentConfig, config.Configuration.MakePathsAbsoluteToWorkingDir, util.ToAbsolutePath, util.ToAbsolutePaths

func util.EqualsInAnyOrder(arrayA, arrayB) (r)
  reveal sameEntries
  ensures [only equal lists] r ==> sameEntries(arrayA, arrayB)
  ensures [all equal lists] sameEntries(arrayA, arrayB) ==> r
  loop 1
    invariant forall v string: dom(mapA, v) <==> (exists i in 0 .. $idx: arrayA[i] == v)
  loop 2
    invariant forall v string: dom(mapA, v) <==> mem(arrayA, v)
    invariant forall v string: dom(mapB, v) <==> (exists i in 0 .. $idx: arrayB[i] == v)
  loop 3
    invariant forall v string: dom(mapA, v) <==> mem(arrayA, v)
    invariant forall v string: dom(mapB, v) <==> mem(arrayB, v)
    invariant forall j in 0 .. $idx: mem(arrayB, arrayA[j])
  loop 4
    invariant forall v string: dom(mapA, v) <==> mem(arrayA, v)
    invariant subset(arrayA, arrayB)
    invariant forall j in 0 .. $idx: mem(arrayA, arrayB[j])

extern slices.Equal(a, b) (r)
  ensures r <==> sameList(a, b)

extern config.Configuration.AssertValidity(c)
  note "verified as property C11; does not change the configuration (frame condition checked there)"

func config.Configuration.MakePathsAbsoluteToWorkingDir(c)
  requires c != nil
  modifies c.CacheDir, c.StyleFile, c.CoverImage, c.PandocDataDir, c.FontFiles
  ensures [CacheDir] c.CacheDir == abs(old(c.CacheDir))
  ensures [StyleFile] c.StyleFile == abs(old(c.StyleFile))
  ensures [CoverImage] c.CoverImage == abs(old(c.CoverImage))
  ensures [PandocDataDir] c.PandocDataDir == abs(old(c.PandocDataDir))
  ensures [FontFiles] len(c.FontFiles) == len(old(c.FontFiles)) && (forall i in 0 .. len(c.FontFiles): c.FontFiles[i] == abs(old(c.FontFiles)[i]))
  loop 1
    invariant len(c.FontFiles) == len(old(c.FontFiles))
    invariant forall j in 0 .. $idx: c.FontFiles[j] == abs(old(c.FontFiles)[j])
    invariant forall j in $idx .. len(c.FontFiles): c.FontFiles[j] == old(c.FontFiles)[j]
    invariant any(out []string) len(out) == $idx
    invariant any(out []string) len(out) == len(old(c.FontFiles))
    invariant any(out []string) forall j in 0 .. $idx: out[j] == abs(old(c.FontFiles)[j])

func config.MergeIntoCurrentConfig(c)
  requires c != nil && c != config.Current && c != config.defaultConfig && config.Current != config.defaultConfig
  modifies deref(config.Current)
  ensures [ForceRegenerateHtml] config.Current.ForceRegenerateHtml == ite(old(c.ForceRegenerateHtml) != old(config.defaultConfig.ForceRegenerateHtml), old(c.ForceRegenerateHtml), old(config.Current.ForceRegenerateHtml))
  ensures [SvgSizeToViewbox] config.Current.SvgSizeToViewbox == ite(old(c.SvgSizeToViewbox) != old(config.defaultConfig.SvgSizeToViewbox), old(c.SvgSizeToViewbox), old(config.Current.SvgSizeToViewbox))
  ensures [OutputType] config.Current.OutputType == ite(old(c.OutputType) != old(config.defaultConfig.OutputType), old(c.OutputType), old(config.Current.OutputType))
  ensures [OutputDriver] config.Current.OutputDriver == ite(old(c.OutputDriver) != old(config.defaultConfig.OutputDriver), old(c.OutputDriver), old(config.Current.OutputDriver))
  ensures [CacheMaxSize] config.Current.CacheMaxSize == ite(old(c.CacheMaxSize) != old(config.defaultConfig.CacheMaxSize), old(c.CacheMaxSize), old(config.Current.CacheMaxSize))
  ensures [CacheMaxAge] config.Current.CacheMaxAge == ite(old(c.CacheMaxAge) != old(config.defaultConfig.CacheMaxAge), old(c.CacheMaxAge), old(config.Current.CacheMaxAge))
  ensures [CacheEvictionStrategy] config.Current.CacheEvictionStrategy == ite(old(c.CacheEvictionStrategy) != old(config.defaultConfig.CacheEvictionStrategy), old(c.CacheEvictionStrategy), old(config.Current.CacheEvictionStrategy))
  ensures [CommandTemplateSvgToPng] config.Current.CommandTemplateSvgToPng == ite(old(c.CommandTemplateSvgToPng) != old(config.defaultConfig.CommandTemplateSvgToPng), old(c.CommandTemplateSvgToPng), old(config.Current.CommandTemplateSvgToPng))
  ensures [CommandTemplateMathSvgToPng] config.Current.CommandTemplateMathSvgToPng == ite(old(c.CommandTemplateMathSvgToPng) != old(config.defaultConfig.CommandTemplateMathSvgToPng), old(c.CommandTemplateMathSvgToPng), old(config.Current.CommandTemplateMathSvgToPng))
  ensures [CommandTemplateImageProcessing] config.Current.CommandTemplateImageProcessing == ite(old(c.CommandTemplateImageProcessing) != old(config.defaultConfig.CommandTemplateImageProcessing), old(c.CommandTemplateImageProcessing), old(config.Current.CommandTemplateImageProcessing))
  ensures [CommandTemplatePdfToPng] config.Current.CommandTemplatePdfToPng == ite(old(c.CommandTemplatePdfToPng) != old(config.defaultConfig.CommandTemplatePdfToPng), old(c.CommandTemplatePdfToPng), old(config.Current.CommandTemplatePdfToPng))
  ensures [CommandTemplateWebpToPng] config.Current.CommandTemplateWebpToPng == ite(old(c.CommandTemplateWebpToPng) != old(config.defaultConfig.CommandTemplateWebpToPng), old(c.CommandTemplateWebpToPng), old(config.Current.CommandTemplateWebpToPng))
  ensures [WikipediaInstance] config.Current.WikipediaInstance == ite(old(c.WikipediaInstance) != old(config.defaultConfig.WikipediaInstance), old(c.WikipediaInstance), old(config.Current.WikipediaInstance))
  ensures [WikipediaHost] config.Current.WikipediaHost == ite(old(c.WikipediaHost) != old(config.defaultConfig.WikipediaHost), old(c.WikipediaHost), old(config.Current.WikipediaHost))
  ensures [WikipediaImageHost] config.Current.WikipediaImageHost == ite(old(c.WikipediaImageHost) != old(config.defaultConfig.WikipediaImageHost), old(c.WikipediaImageHost), old(config.Current.WikipediaImageHost))
  ensures [WikipediaMathRestApi] config.Current.WikipediaMathRestApi == ite(old(c.WikipediaMathRestApi) != old(config.defaultConfig.WikipediaMathRestApi), old(c.WikipediaMathRestApi), old(config.Current.WikipediaMathRestApi))
  ensures [MathConverter] config.Current.MathConverter == ite(old(c.MathConverter) != old(config.defaultConfig.MathConverter), old(c.MathConverter), old(config.Current.MathConverter))
  ensures [TocDepth] config.Current.TocDepth == ite(old(c.TocDepth) != old(config.defaultConfig.TocDepth), old(c.TocDepth), old(config.Current.TocDepth))
  ensures [WorkerThreads] config.Current.WorkerThreads == ite(old(c.WorkerThreads) != old(config.defaultConfig.WorkerThreads), old(c.WorkerThreads), old(config.Current.WorkerThreads))
  ensures [UserAgentTemplate] config.Current.UserAgentTemplate == ite(old(c.UserAgentTemplate) != old(config.defaultConfig.UserAgentTemplate), old(c.UserAgentTemplate), old(config.Current.UserAgentTemplate))
  ensures [CacheDir] config.Current.CacheDir == abs(ite(old(c.CacheDir) != old(config.defaultConfig.CacheDir), old(c.CacheDir), old(config.Current.CacheDir)))
  ensures [StyleFile] config.Current.StyleFile == abs(ite(old(c.StyleFile) != old(config.defaultConfig.StyleFile), old(c.StyleFile), old(config.Current.StyleFile)))
  ensures [CoverImage] config.Current.CoverImage == abs(ite(old(c.CoverImage) != old(config.defaultConfig.CoverImage), old(c.CoverImage), old(config.Current.CoverImage)))
  ensures [PandocDataDir] config.Current.PandocDataDir == abs(ite(old(c.PandocDataDir) != old(config.defaultConfig.PandocDataDir), old(c.PandocDataDir), old(config.Current.PandocDataDir)))
  ensures [PandocExecutable] config.Current.PandocExecutable == ite(old(c.PandocExecutable) == old(config.defaultConfig.PandocExecutable), old(config.Current.PandocExecutable), ite(contains(old(c.PandocExecutable), "/"), abs(old(c.PandocExecutable)), old(c.PandocExecutable)))
  ensures [IgnoredTemplates taken over] !sameEntries(old(c.IgnoredTemplates), old(config.defaultConfig.IgnoredTemplates)) ==> config.Current.IgnoredTemplates == old(c.IgnoredTemplates)
  ensures [IgnoredTemplates kept] sameEntries(old(c.IgnoredTemplates), old(config.defaultConfig.IgnoredTemplates)) ==> config.Current.IgnoredTemplates == old(config.Current.IgnoredTemplates)
  ensures [TrailingTemplates taken over] !sameEntries(old(c.TrailingTemplates), old(config.defaultConfig.TrailingTemplates)) ==> config.Current.TrailingTemplates == old(c.TrailingTemplates)
  ensures [TrailingTemplates kept] sameEntries(old(c.TrailingTemplates), old(config.defaultConfig.TrailingTemplates)) ==> config.Current.TrailingTemplates == old(config.Current.TrailingTemplates)
  ensures [IgnoredImageParams taken over] !sameEntries(old(c.IgnoredImageParams), old(config.defaultConfig.IgnoredImageParams)) ==> config.Current.IgnoredImageParams == old(c.IgnoredImageParams)
  ensures [IgnoredImageParams kept] sameEntries(old(c.IgnoredImageParams), old(config.defaultConfig.IgnoredImageParams)) ==> config.Current.IgnoredImageParams == old(config.Current.IgnoredImageParams)
  ensures [IgnoredMediaTypes taken over] !sameEntries(old(c.IgnoredMediaTypes), old(config.defaultConfig.IgnoredMediaTypes)) ==> config.Current.IgnoredMediaTypes == old(c.IgnoredMediaTypes)
  ensures [IgnoredMediaTypes kept] sameEntries(old(c.IgnoredMediaTypes), old(config.defaultConfig.IgnoredMediaTypes)) ==> config.Current.IgnoredMediaTypes == old(config.Current.IgnoredMediaTypes)
  ensures [FilePrefixes taken over] !sameEntries(old(c.FilePrefixes), old(config.defaultConfig.FilePrefixes)) ==> config.Current.FilePrefixes == old(c.FilePrefixes)
  ensures [FilePrefixes kept] sameEntries(old(c.FilePrefixes), old(config.defaultConfig.FilePrefixes)) ==> config.Current.FilePrefixes == old(config.Current.FilePrefixes)
  ensures [AllowedLinkPrefixes taken over] !sameEntries(old(c.AllowedLinkPrefixes), old(config.defaultConfig.AllowedLinkPrefixes)) ==> config.Current.AllowedLinkPrefixes == old(c.AllowedLinkPrefixes)
  ensures [AllowedLinkPrefixes kept] sameEntries(old(c.AllowedLinkPrefixes), old(config.defaultConfig.AllowedLinkPrefixes)) ==> config.Current.AllowedLinkPrefixes == old(config.Current.AllowedLinkPrefixes)
  ensures [CategoryPrefixes taken over] !sameEntries(old(c.CategoryPrefixes), old(config.defaultConfig.CategoryPrefixes)) ==> config.Current.CategoryPrefixes == old(c.CategoryPrefixes)
  ensures [CategoryPrefixes kept] sameEntries(old(c.CategoryPrefixes), old(config.defaultConfig.CategoryPrefixes)) ==> config.Current.CategoryPrefixes == old(config.Current.CategoryPrefixes)
  ensures [WikipediaImageArticleHosts taken over, the order matters] !sameList(old(c.WikipediaImageArticleHosts), old(config.defaultConfig.WikipediaImageArticleHosts)) ==> config.Current.WikipediaImageArticleHosts == old(c.WikipediaImageArticleHosts)
  ensures [WikipediaImageArticleHosts kept] sameList(old(c.WikipediaImageArticleHosts), old(config.defaultConfig.WikipediaImageArticleHosts)) ==> config.Current.WikipediaImageArticleHosts == old(config.Current.WikipediaImageArticleHosts)
  ensures [FontFiles taken over] !sameEntries(old(c.FontFiles), old(config.defaultConfig.FontFiles)) ==> len(config.Current.FontFiles) == len(old(c.FontFiles)) && (forall i in 0 .. len(config.Current.FontFiles): config.Current.FontFiles[i] == abs(old(c.FontFiles)[i]))
  ensures [FontFiles kept] sameEntries(old(c.FontFiles), old(config.defaultConfig.FontFiles)) ==> len(config.Current.FontFiles) == len(old(config.Current.FontFiles)) && (forall i in 0 .. len(config.Current.FontFiles): config.Current.FontFiles[i] == abs(old(config.Current.FontFiles)[i]))
