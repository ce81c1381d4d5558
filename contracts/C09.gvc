property C09
use cachepath
strict

# the file of an image below the cache directory: converted images get the suffix .png
pure extern strings.ToLower(s) (r) as lower
pure extern net/url.QueryEscape(s) (r) as queryEscape
pure extern strings.Split(s, sep) (r) as split
pure extern strings.SplitN(s, sep, n) (r) as splitN
pure extern strings.Join(l, sep) (r) as strJoin

spec simple(f string) bool = san(f) != "" && san(f) != "." && san(f) != ".." && !contains(san(f), "/")
axiom extensionOfJoined(a string, b string, f string)
  note "the extension of a path is the one of its last component; lower case keeps / and ."
  requires simple(f)
  ensures ext(lower(join(a, b, san(f)))) == ext(lower(san(f)))
  trigger join(a, b, san(f))
axiom extensionOfPng(p string)
  note "a path that ends with .png has this extension"
  ensures ext(lower(p + ".png")) == ".png"
  trigger lower(p + ".png")

spec extOf(f string) string = ext(lower(san(f)))
spec template(f string) string = ite(extOf(f) == ".pdf", config.Current.CommandTemplatePdfToPng,
  ite(extOf(f) == ".svg", config.Current.CommandTemplateSvgToPng,
  ite(extOf(f) == ".webp", config.Current.CommandTemplateWebpToPng, "")))
spec convert(f string) bool = template(f) != ""
spec pngSuffix(f string) string = ite(convert(f), ".png", "")
spec original(f string) string = cachePath("images", f)
spec final(f string) string = original(f) + pngSuffix(f)
spec htmlPath(f string) string = join(".", "images", san(f)) + pngSuffix(f)

ghost name string          # the name of the image
ghost pngExists bool       # the converted file is there
ghost converted bool       # it has been converted
ghost convertErr error
ghost resized int
ghost resizeErr error

verify wikipedia.DefaultWikipediaService.postProcessImage, wikipedia.DefaultWikipediaService.downloadImage
verify wikipedia.DefaultWikipediaService.DownloadArticle
verify generator.filenameToImagePath, generator.HtmlGenerator.expandInlineImage, generator.HtmlGenerator.expandImage, generator.escapePathComponents

extern util.PathExists(p) (r)
  ensures p == final(name) ==> r == pngExists
extern image.ImageProcessingService.ConvertToPng(s, input, output, command) (err)
  requires [converts the cached original into the file of the HTML] convert(name) && input == original(name) && output == final(name) && command == template(name)
  requires [only if it has not been converted before] !pngExists && !converted
  modifies pngExists, converted, convertErr
  ensures converted && convertErr == err
  ensures pngExists <==> err == nil
extern image.ImageProcessingService.ResizeAndCompressImage(s, file, command) (err)
  requires [resizes the file of the HTML] file == final(name) && command == config.Current.CommandTemplateImageProcessing
  requires [only if a command is configured] command != ""
  requires [neither SVG nor PDF] ext(lower(file)) != ".svg" && ext(lower(file)) != ".pdf"
  requires [the file exists] convert(name) ==> pngExists
  modifies resized, resizeErr
  ensures resized == old(resized) + 1 && resizeErr == err

func wikipedia.DefaultWikipediaService.postProcessImage(w, path, fresh) (err)
  requires simple(name) && path == original(name)
  requires !converted && resized == 0 && convertErr == nil && resizeErr == nil
  modifies pngExists, converted, convertErr, resized, resizeErr
  ensures [the file of the HTML exists] err == nil && convert(name) ==> pngExists
  ensures [only fresh files are resized] resized == ite(convertErr == nil && (fresh || converted) && config.Current.CommandTemplateImageProcessing != "" && (convert(name) || extOf(name) != ".svg" && extOf(name) != ".pdf"), 1, 0)
  ensures [errors are passed on] (err == nil) == (convertErr == nil && resizeErr == nil)

func generator.filenameToImagePath(filename) (r)
  requires simple(filename)
  ensures [the path in the HTML is the file of the image] r == htmlPath(filename)

pure func generator.escapePathComponents(path) (r) as escaped
  ensures [escapes every component] exists l []string: r == strJoin(l, "/") && len(l) == len(split(path, "/")) && (forall i in 0 .. len(l): l[i] == queryEscape(split(path, "/")[i]))
  loop 1
    invariant len(parts) == len(split(path, "/"))
    invariant forall i in 0 .. $idx: parts[i] == queryEscape(split(path, "/")[i])
    invariant forall i in $idx .. len(parts): parts[i] == split(path, "/")[i]
    invariant any(out []string) len(out) == $idx
    invariant any(out []string) len(out) == len(split(path, "/"))
    invariant any(out []string) forall i in 0 .. $idx: out[i] == queryEscape(split(path, "/")[i])

func generator.HtmlGenerator.expandInlineImage(g, token) (r, err)
  requires simple(token.Filename)
  ensures [refers to the file of the image] err == nil ==> contains(r, " src=\"./" + escaped(htmlPath(token.Filename)) + "\"")
func generator.HtmlGenerator.expandImage(g, token) (r, err)
  requires simple(token.Filename)
  ensures [refers to the file of the image] err == nil ==> contains(r, " src=\"./" + escaped(htmlPath(token.Filename)) + "\"")

extern generator.expand(g, x) (r, err)
  note "the text of the caption, verified as property C22"

pure extern strings.ReplaceAll(s, old, new) (r) as replaceAll
axiom splitAtSeparator(s string, sep string)
  requires indexOf(s, sep) >= 0 && sep != ""
  ensures len(splitN(s, sep, 2)) == 2 && splitN(s, sep, 2)[0] == s[:indexOf(s, sep)] && splitN(s, sep, 2)[1] == s[indexOf(s, sep) + len(sep):]
  trigger splitN(s, sep, 2)
axiom nothingToReplace(s string, x string, y string)
  requires !contains(s, x)
  ensures replaceAll(s, x, y) == s
  trigger replaceAll(s, x, y)
extern http.HttpService.DownloadAndCache(s, u, folder, file) (p, fresh, err)
  note "verified as property C07"
  ensures err == nil ==> p == cachePath(folder, file)
extern util.Filesystem.ReadFile(fs, path) (b, err)
extern encoding/json.Unmarshal(data, v) (err)
extern image.MakeSvgSizeAbsolute(path) (err)
  note "keeps the path of the file"

func wikipedia.DefaultWikipediaService.DownloadArticle(w, host, t) (r, err)
  ensures err == nil ==> r != nil && r.Parse.OriginalTitle == t

func wikipedia.DefaultWikipediaService.downloadImage(w, host, image) (path, fresh, err)
  requires contains(image, ":") && !contains(image, " ") && name == image[indexOf(image, ":") + 1:]
  ensures [stores the image under its name] err == nil ==> path == original(name)
