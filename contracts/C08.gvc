property C08
strict

# the current image
ghost tried int          # sources asked so far
ghost delivered bool     # a source delivered the image
ghost deliveredPath string
ghost deliveredFresh bool
ghost processed int      # number of post-processings
ghost processErr error
# the list of images
ghost wanted []string
ghost done int           # images started so far

verify wikipedia.DefaultWikipediaService.DownloadImages, wikipedia.DefaultWikipediaService.downloadImageUsingAllSources, wikipedia.DefaultWikipediaService.downloadImage

pure extern strings.SplitN(s, sep, n) (r) as splitN
pure extern net/url.QueryEscape(s) (r) as queryEscape
extern util.Filesystem.ReadFile(fs, path) (b, err)
extern image.MakeSvgSizeAbsolute(path) (err)
extern encoding/json.Unmarshal(data, v) (err)

extern http.HttpService.DownloadAndCache(s, u, folder, file) (path, fresh, err)
  note "verified as property C07"
  requires [no further source is asked] !delivered
  requires [downloads articles and images] folder == "articles" || folder == "images"
  modifies delivered, deliveredPath, deliveredFresh
  ensures delivered <==> (err == nil && folder == "images")
  ensures deliveredPath == path && deliveredFresh == fresh

func wikipedia.DefaultWikipediaService.DownloadArticle(w, host, title) (r, err)
  requires [sources in their configured order] tried >= 1 && tried <= len(w.wikipediaImageArticleHosts) && host == w.wikipediaImageArticleHosts[tried - 1]
  requires [no further source is asked] !delivered
  modifies delivered, deliveredPath, deliveredFresh
  ensures !delivered
  ensures err == nil ==> r != nil

verify wikipedia.DefaultWikipediaService.DownloadArticle

func wikipedia.DefaultWikipediaService.downloadImage(w, host, image) (path, fresh, err)
  requires [sources in their configured order] tried >= 0 && tried < len(w.wikipediaImageArticleHosts) && host == w.wikipediaImageArticleHosts[tried]
  requires [the current image] done >= 1 && done <= len(wanted) && image == wanted[done - 1]
  requires [no further source is asked] !delivered
  set tried := tried + 1
  modifies tried, delivered, deliveredPath, deliveredFresh
  ensures tried == old(tried) + 1
  ensures [an image that has been delivered is used] delivered <==> err == nil
  ensures err == nil ==> path == deliveredPath && fresh == deliveredFresh

extern wikipedia.DefaultWikipediaService.postProcessImage(w, path, fresh) (err)
  note "verified as property C09"
  requires [post-processes the delivered image once] delivered && processed == 0 && path == deliveredPath && fresh == deliveredFresh
  modifies processed, processErr
  ensures processed == old(processed) + 1 && processErr == err

func wikipedia.DefaultWikipediaService.downloadImageUsingAllSources(w, image) (err)
  requires len(w.wikipediaImageArticleHosts) > 0
  requires [images in their order] done >= 0 && done < len(wanted) && image == wanted[done]
  requires [stops at the first failing image] done == 0 || delivered && processErr == nil
  set tried := 0
  set delivered := false
  set processed := 0
  set done := done + 1
  modifies tried, delivered, deliveredPath, deliveredFresh, processed, processErr, done
  ensures done == old(done) + 1
  ensures [success means delivered and post-processed once] err == nil ==> delivered && processed == 1 && processErr == nil
  ensures [an error means that every source or the post-processing failed] err != nil ==> !delivered && tried == len(w.wikipediaImageArticleHosts) || delivered && processed == 1 && processErr != nil
  loop 1
    invariant tried == $idx && !delivered && processed == 0
    invariant $idx == 0 || downloadErr != nil

func wikipedia.DefaultWikipediaService.DownloadImages(w, images) (err)
  requires len(w.wikipediaImageArticleHosts) > 0 && wanted == images && done == 0
  modifies tried, delivered, deliveredPath, deliveredFresh, processed, processErr, done
  ensures [all images are available] err == nil ==> done == len(images) && (len(images) == 0 || delivered && processErr == nil)
  ensures [the error of the first failing image] err != nil ==> done > 0 && !(delivered && processErr == nil)
  loop 1
    invariant done == $idx
    invariant done == 0 || delivered && processErr == nil
