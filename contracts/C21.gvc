property C21
use cachepath
strict

ghost formula string
ghost cacheErr error
ghost cached bool
ghost cachedPath string
ghost resource string        # location the service reported (now or in an earlier, cached answer)
ghost known bool
ghost failed bool            # a step of the rendering failed
ghost asked bool
ghost answer *net/http.Response
ghost askErr error
ghost stored bool
ghost svg string
ghost haveSvg bool
ghost png string
ghost havePng bool

pure extern net/url.QueryEscape(s) (r) as queryEscape
pure extern util.Hash(s) (r) as hash
  note "different formulas have different hashes"
pure extern util.TruncString(s) (r) as truncString
pure extern strings.NewReader(s) (r) as newReader
pure extern io.NopCloser(r) (c) as nopCloser
pure extern net/http.Header.Get(h, k) (r) as header
extern util.ReaderToString(r) (s)
extern io.ReadCloser.Close(r) (err)

verify wikipedia.DefaultWikipediaService.getMathResource, wikipedia.DefaultWikipediaService.RenderMath

spec location(r *net/http.Response) string = header(r.Header, "x-resource-location")
spec answered() bool = asked && askErr == nil && answer != nil && answer.StatusCode == 200 && location(answer) != ""

extern cache.GetFile(folder, file) (path, usable, err)
  note "verified as property C06"
  requires [looks for exactly this formula] folder == "math" && file == hash(formula)
  modifies cached, cacheErr, cachedPath
  ensures cached == usable && cacheErr == err && cachedPath == path && (err != nil ==> !usable)
extern util.Filesystem.ReadFile(fs, path) (b, err)
  requires [reads the cached location] cached && path == cachedPath
  modifies resource, known, failed
  ensures resource == string(b) && known == (err == nil) && failed == (err != nil)
extern http.HttpService.PostFormEncoded(s, u, data) (r, err)
  requires [asks for exactly this formula] u == api + "/check/tex" && data == "q=" + queryEscape("{\\displaystyle " + formula + "}")
  requires [only if the location is not cached] !cached && !asked
  modifies asked, answer, askErr, resource, known
  ensures asked && answer == r && askErr == err
  ensures r != nil ==> resource == location(r)
  ensures known == answered()
extern cache.CacheToFile(folder, file, reader) (path, err)
  note "verified as properties C03 and C04"
  requires [stores the location of exactly this formula] folder == "math" && file == hash(formula)
  requires [stores only locations of successful answers] answered() && reader == nopCloser(box(newReader(location(answer))))
  modifies failed, stored
  ensures failed == (err != nil) && stored

func wikipedia.DefaultWikipediaService.getMathResource(w, mathString) (r, err)
  requires mathString == formula && w.wikipediaMathRestApi == api && !asked && !stored && !known && !failed && !cached
  modifies cached, cacheErr, cachedPath, resource, known, failed, asked, answer, askErr, stored
  ensures [the location of this formula] err == nil ==> r == resource && known && !failed
  ensures [no location in case of errors] err != nil ==> r == ""
  ensures [failures are reported] failed || !known ==> err != nil
  ensures [a new location is cached] err == nil && !cached ==> stored

ghost api string
extern http.HttpService.DownloadAndCache(s, u, folder, file) (p, fresh, err)
  note "verified as property C07"
  requires [after the location is known] known && !failed && folder == "images"
  requires [the SVG file of the resource, or its PNG file from the service] file == resource + ".svg" && u == api + "/render/svg/" + resource && !haveSvg || file == resource + ".png" && u == api + "/render/png/" + resource && config.Current.MathConverter == "wikimedia" && !havePng
  modifies svg, haveSvg, png, havePng, failed
  ensures failed == (err != nil)
  ensures file == resource + ".svg" ==> svg == p && haveSvg && png == old(png) && havePng == old(havePng)
  ensures file != resource + ".svg" ==> png == p && havePng && svg == old(svg) && haveSvg == old(haveSvg)
extern image.ImageProcessingService.ConvertToPng(s, input, output, command) (err)
  requires [converts the SVG file by the configured command] config.Current.MathConverter == "template" && haveSvg && !failed && input == svg && command == config.Current.CommandTemplateMathSvgToPng
  requires [the PNG file is next to it] output == cachePath("images", resource + ".png") && !havePng
  modifies png, havePng, failed
  ensures failed == (err != nil) && png == output && havePng

func wikipedia.DefaultWikipediaService.RenderMath(w, mathString) (rsvg, rpng, err)
  requires mathString == formula && w.wikipediaMathRestApi == api && !asked && !stored && !known && !failed && !cached && !haveSvg && !havePng
  modifies cached, cacheErr, cachedPath, resource, known, failed, asked, answer, askErr, stored, svg, haveSvg, png, havePng
  ensures [failures surface] failed || !known ==> err != nil
  ensures [unknown converters are errors] config.Current.MathConverter != "none" && config.Current.MathConverter != "wikimedia" && config.Current.MathConverter != "template" ==> err != nil
  ensures [no paths in case of errors] err != nil ==> rsvg == "" && rpng == ""
  ensures [the SVG file] err == nil ==> haveSvg && rsvg == svg
  ensures [the picture of the converter] err == nil ==> ite(config.Current.MathConverter == "none", rpng == svg && !havePng, havePng && rpng == png)
