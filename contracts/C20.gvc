property C20
strict

ghost started bool        # pandoc has been started
ghost runErr error
ghost cmd *os/exec.Cmd
ghost files []string
ghost out string
ghost meta config.Metadata
ghost failed bool         # a step of the internal generator failed
ghost library bool        # the internal generator has been started
ghost written bool        # the book has been written by the internal generator
ghost sections int
ghost section string

spec common() []string = seqOf("-f", "html", "-t", config.Current.OutputType, "-o", out,
  "--metadata", "title=" + meta.Title, "--metadata", "author=" + meta.Author, "--metadata", "rights=" + meta.License,
  "--metadata", "language=" + meta.Language, "--metadata", "date=" + meta.Date)
spec toc() []string = ite(config.Current.TocDepth > 0, seqOf("--toc", "--toc-depth", itoa(config.Current.TocDepth)), emptySeq("string"))
spec dataDir() []string = ite(config.Current.PandocDataDir != "", seqOf("--data-dir", config.Current.PandocDataDir), emptySeq("string"))
spec css() []string = ite(config.Current.StyleFile != "", seqOf("--css", config.Current.StyleFile), emptySeq("string"))
spec cover() []string = ite(config.Current.CoverImage != "", seqOf("--epub-cover-image=" + config.Current.CoverImage), emptySeq("string"))
rec spec fonts(l []string, n int) []string = ite(n <= 0, emptySeq("string"), fonts(l, n - 1) + seqOf("--epub-embed-font=" + l[n - 1]))
spec options() []string = common() + toc() + dataDir() + css() + cover()
spec expected() []string = options() + fonts(config.Current.FontFiles, len(config.Current.FontFiles)) + files

verify generator.GenerateEpubWithPandoc, generator.GenerateEpub, generator.GenerateEpubWithGoLibrary

extern os/exec.Command(name, args) (c)
  requires [starts the configured executable] name == config.Current.PandocExecutable
  requires [passes all configured settings and all articles] args == expected()
  modifies cmd
  ensures c != nil && fresh(c) && cmd == c
extern os/exec.Cmd.String(c) (s)
extern os/exec.Cmd.Run(c) (err)
  requires [runs in the cache directory] c == cmd && c.Dir == config.Current.CacheDir && !started
  modifies started, runErr
  ensures started && runErr == err

func generator.GenerateEpubWithPandoc(sourceFiles, outputFile, metadata) (err)
  requires sourceFiles == files && outputFile == out && metadata == meta && !started
  modifies cmd, started, runErr
  ensures [pandoc runs and its failure is an error] started && (err == nil) == (runErr == nil)
  loop 1
    invariant args == options() + fonts(config.Current.FontFiles, $idx)
    invariant any(a []string) a == entry(a) + fonts(config.Current.FontFiles, $idx)

func generator.GenerateEpub(articleFiles, outputFile, metadata) (err)
  requires articleFiles == files && outputFile == out && metadata == meta && !started && !library && !failed && !written && sections == 0
  modifies cmd, started, runErr, library, failed, written, sections, section
  ensures [pandoc generates the book] epub() && config.Current.OutputDriver == "pandoc" ==> started && !library && (err == nil) == (runErr == nil)
  ensures [the internal driver generates the book] epub() && config.Current.OutputDriver == "internal" ==> library && !started && (err == nil) == !failed
  ensures [unknown types and drivers are errors] !epub() || config.Current.OutputDriver != "pandoc" && config.Current.OutputDriver != "internal" ==> err != nil && !started && !library
spec epub() bool = config.Current.OutputType == "epub2" || config.Current.OutputType == "epub3"

# the internal generator
extern github.com/go-shiori/go-epub.NewEpub(title) (e, err)
  modifies library, failed
  ensures library && (failed <==> old(failed) || err != nil)
  ensures err == nil ==> e != nil
extern github.com/go-shiori/go-epub.Epub.AddImage(e, file, n) (p, err)
  requires [the configured cover] file == config.Current.CoverImage
  modifies failed
  ensures failed <==> old(failed) || err != nil
extern github.com/go-shiori/go-epub.Epub.SetCover(e, p, c) (err)
  modifies failed
  ensures failed <==> old(failed) || err != nil
extern github.com/go-shiori/go-epub.Epub.AddSection(e, body, title, f, css) (p, err)
  requires [the article files in their order] !failed && sections < len(files) && section == files[sections]
  modifies failed, sections
  ensures failed <==> old(failed) || err != nil
  ensures sections == old(sections) + 1
extern github.com/go-shiori/go-epub.Epub.AddCSS(e, file, n) (p, err)
  requires [the configured style sheet] file == config.Current.StyleFile
  modifies failed
  ensures failed <==> old(failed) || err != nil
extern github.com/go-shiori/go-epub.Epub.AddFont(e, file, n) (p, err)
  modifies failed
  ensures failed <==> old(failed) || err != nil
extern github.com/go-shiori/go-epub.Epub.Write(e, file) (err)
  requires [writes all articles into the configured file] !failed && file == out && sections == len(files)
  modifies failed, written
  ensures written && (failed <==> old(failed) || err != nil)
extern os.ReadFile(file) (b, err)
  modifies failed, section
  ensures section == file
  ensures failed <==> old(failed) || err != nil

func generator.GenerateEpubWithGoLibrary(sourceFiles, outputFile, metadata) (err)
  requires sourceFiles == files && outputFile == out && !failed && !library && !written && sections == 0
  modifies library, failed, written, sections, section
  ensures library
  ensures [every failing step is an error] (err == nil) == !failed
  ensures [the book is written] err == nil ==> written && sections == len(files)
  loop 1
    invariant sections == $idx && !failed && library && !written
  loop 2
    invariant sections == len(files) && !failed && library && !written
