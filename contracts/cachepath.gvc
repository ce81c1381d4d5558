# where the cache keeps a file
use paths
pure extern util.SanitizeFilename(s) (r) as san
  note "a function of its argument (verified as properties C01 and C02)"
spec cachePath(folder string, file string) string = join(config.Current.CacheDir, folder, san(file))
axiom joinOfJoin(a string, b string, c string)
  ensures join(join(a, b), c) == join(a, b, c)
  trigger join(join(a, b), c)
