property C13

ghost arts []string          # the articles of the project
# the starting function
ghost spawned int            # threads started
ghost wgAdded int            # threads the wait group waits for
ghost chanClosed bool
ghost sent arr[int] bool     # article numbers sent
ghost waited bool
# the running thread
ghost mine arr[int] bool     # article numbers the thread has received
ghost drained bool           # the channel is closed and empty
ghost done bool              # the wait group was told that the thread is done

# r is a result of processing the article with the name
spec isResultOf(name string, r string) bool
spec isTextOf(name string, content string) bool
spec validType() bool = config.Current.OutputType == "epub2" || config.Current.OutputType == "epub3" || config.Current.OutputType == "stats-json" || config.Current.OutputType == "stats-txt"
spec parsedOf(content string, a *parser.Article) bool
spec outputOf(a *parser.Article, r string) bool
spec threadResult(i int, r string) bool = i < len(arts) ==> isResultOf(arts[i], r)

axiom resultOfArticle(name string, content string, a *parser.Article, r string)
  requires isTextOf(name, content) && parsedOf(content, a) && outputOf(a, r)
  ensures isResultOf(name, r)
  trigger isTextOf(name, content), parsedOf(content, a), outputOf(a, r)
  note "definition of: r is a result of processing the article"
axiom resultOfExistingFile(name string, r string)
  requires r == absPath(joinPath("html", name + ".html"))
  ensures isResultOf(name, r)
  trigger isResultOf(name, r)
  note "definition of: r is a result of processing the article (HTML file that exists already)"

verify main.generateBookFromArticles, main.processArticle

spec joinPath(a string, b string) string
spec absPath(p string) string
extern path/filepath.Join(parts) (r)
  ensures len(parts) == 2 ==> r == joinPath(parts[0], parts[1])
extern util.ToAbsolutePath(p) (r, err)
  ensures err == nil ==> r == absPath(p)
extern os.Stat(p) (i, err)

extern wikipedia.DefaultWikipediaService.DownloadArticle(w, host, title) (r, err)
  ensures err == nil ==> r != nil && isTextOf(title, r.Parse.Wikitext.Content)
extern wikipedia.DefaultWikipediaService.DownloadImages(w, images) (err)
extern parser.NewTokenizer(w) (r)
extern parser.Tokenizer.Tokenize(t, content, title) (a, err)
  ensures err == nil ==> a != nil && parsedOf(content, a)
extern generator.HtmlGenerator.Generate(g, a) (r, err)
  ensures err == nil ==> outputOf(a, r)
extern generator.NewStatsGenerator(m) (r)
extern generator.StatsGenerator.Generate(g, a) (r, err)
  ensures err == nil ==> outputOf(a, r)

func main.processArticle(articleName, currentArticleNumber, totalNumberOfArticles, wikipediaService) (r)
  requires validType()
  ensures [the result belongs to the article] isResultOf(articleName, r)

extern wikipedia.NewWikipediaService(a, b, c, d, e, f, g) (r)
extern main.ensurePathsAndClearTempDir(f) (r)
extern config.Configuration.AssertFilesAndPathsExists(c)

# the threads
extern go.start()
  set spawned := spawned + 1
extern go.begin()
  modifies mine, drained, done
  ensures (forall i int: !mine[i]) && !drained && !done
extern go.end()
  requires [a thread only ends when all articles have been taken] drained
  requires [the wait group is told that the thread has ended] done
extern chan.send(c, v)
  requires [article numbers of the project] 0 <= v && v < len(arts)
  requires [every article is sent at most once] !sent[v]
  requires [nothing is sent after the channel has been closed] !chanClosed
  set sent := upd(sent, v, true)
extern chan.close(c)
  requires [the channel is closed once] !chanClosed
  set chanClosed := true
extern chan.recv(c) (v, ok)
  modifies mine, drained
  ensures ok ==> 0 <= v && v < len(arts) && !old(mine)[v] && mine == upd(old(mine), v, true) && drained == old(drained)
  ensures !ok ==> v == 0 && mine == old(mine) && drained
extern sync.WaitGroup.Add(w, n)
  set wgAdded := wgAdded + n
extern sync.WaitGroup.Done(w)
  requires [a thread is done only once] !done
  set done := true
extern sync.WaitGroup.Wait(w)
  requires [the wait group waits for all threads] wgAdded == spawned
  requires [there are threads] spawned >= 1
  requires [all articles have been sent] chanClosed
  requires [every article has been sent] forall i in 0 .. len(arts): sent[i]
  set waited := true

func main.generateBookFromArticles(project)
  requires project != nil && config.Current != nil
  requires config.Current.WorkerThreads >= 1
  requires validType()
  set arts := project.Articles
  set spawned := 0
  set wgAdded := 0
  set chanClosed := false
  set waited := false
  set sent := constArr(int, bool, false)
  noframe
  loop all
    invariant forall k int: sent[k] <==> 0 <= k && k < $idx
  loop 1
    invariant spawned == i
    invariant wgAdded == config.Current.WorkerThreads
    invariant wgAdded == spawned
    invariant spawned >= 0
    invariant i <= config.Current.WorkerThreads
  loop 2
    invariant forall k int: sent[k] <==> 0 <= k && k < i
    invariant forall k int: sent[k] <==> 0 <= k && k < articleNumber
    invariant spawned >= 1
    invariant wgAdded == spawned

extern generator.GenerateEpub(files, outputFile, metadata) (err)
  requires [the book is generated after all articles have been processed] waited
  requires [as many files as articles] len(files) == len(arts)
  requires [the file at each position belongs to the article at this position] forall i in 0 .. len(arts): isResultOf(arts[i], files[i])
  note "verified as property C20"
extern generator.GenerateCombinedStats(files, outputFile) (err)
  requires [the book is generated after all articles have been processed] waited
  requires [as many files as articles] len(files) == len(arts)
  requires [the file at each position belongs to the article at this position] forall i in 0 .. len(arts): isResultOf(arts[i], files[i])
  note "verified as property C19"
