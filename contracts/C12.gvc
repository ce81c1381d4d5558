property C12
use paths

ghost uCacheDir string
ghost uStyleFile string
ghost uCoverImage string
ghost uPandocDataDir string
ghost uFontFiles []string
ghost reported bool

verify util.ToAbsolutePath, util.ToAbsolutePathWithBasedir, util.ToAbsolutePaths, config.Configuration.makePathsAbsolute, config.LoadConfig

func config.Configuration.makePathsAbsolute(c, file)
  requires c != nil && file != ""
  modifies c.CacheDir, c.StyleFile, c.CoverImage, c.PandocDataDir, c.FontFiles
  ensures [cache directory] c.CacheDir == resolve(dir(abs(file)), old(c.CacheDir))
  ensures [style file] c.StyleFile == resolve(dir(abs(file)), old(c.StyleFile))
  ensures [cover image] c.CoverImage == resolve(dir(abs(file)), old(c.CoverImage))
  ensures [pandoc data directory] c.PandocDataDir == resolve(dir(abs(file)), old(c.PandocDataDir))
  ensures [number of font files] len(c.FontFiles) == len(old(c.FontFiles))
  ensures [font files] forall i in 0 .. len(c.FontFiles): c.FontFiles[i] == resolve(dir(abs(file)), old(c.FontFiles)[i])
  loop 1
    invariant len(c.FontFiles) == len(old(c.FontFiles))
    invariant forall j in 0 .. $idx: c.FontFiles[j] == resolve(dir(abs(file)), old(c.FontFiles)[j])
    invariant forall j in $idx .. len(c.FontFiles): c.FontFiles[j] == old(c.FontFiles)[j]
    invariant any(out []string) len(out) == $idx
    invariant any(out []string) len(out) == len(old(c.FontFiles))
    invariant any(out []string) forall j in 0 .. $idx: out[j] == resolve(dir(abs(file)), old(c.FontFiles)[j])

extern os.ReadFile(file) (r, err)
  ensures file == "" ==> err != nil

extern encoding/json.Unmarshal(data, v) (err)
  note "fills the given configuration from the JSON text; the ghosts record the path settings afterwards"
  requires isType(v, "*config.Configuration")
  modifies deref(as(v, "*config.Configuration")), uCacheDir, uStyleFile, uCoverImage, uPandocDataDir, uFontFiles
  ensures uCacheDir == as(v, "*config.Configuration").CacheDir && uStyleFile == as(v, "*config.Configuration").StyleFile
  ensures uCoverImage == as(v, "*config.Configuration").CoverImage && uPandocDataDir == as(v, "*config.Configuration").PandocDataDir
  ensures uFontFiles == as(v, "*config.Configuration").FontFiles

extern config.Configuration.AssertValidity(c)
  note "verified as property C11; does not change the configuration (frame condition checked there)"

func config.LoadConfig(file) (err)
  modifies deref(config.Current), uCacheDir, uStyleFile, uCoverImage, uPandocDataDir, uFontFiles
  ensures [cache directory of the file] err == nil ==> config.Current.CacheDir == resolve(dir(abs(file)), uCacheDir)
  ensures [style file of the file] err == nil ==> config.Current.StyleFile == resolve(dir(abs(file)), uStyleFile)
  ensures [cover image of the file] err == nil ==> config.Current.CoverImage == resolve(dir(abs(file)), uCoverImage)
  ensures [pandoc data directory of the file] err == nil ==> config.Current.PandocDataDir == resolve(dir(abs(file)), uPandocDataDir)
  ensures [font files of the file] err == nil ==> len(config.Current.FontFiles) == len(uFontFiles) && (forall i in 0 .. len(uFontFiles): config.Current.FontFiles[i] == resolve(dir(abs(file)), uFontFiles[i]))
