property C24
use strings
strict

# Expansions of the parts of a token (property C22)
pure extern generator.expand(h, content) (r, err) as ex, exErr
  note "verified as property C22; the expansion of a part depends on the part only"
pure extern strings.Join(l, sep) (r) as strJoin
pure extern strings.TrimSpace(s) (r) as trimSpace
pure extern strings.ReplaceAll(s, a, b) (r) as replaceAll

rec spec rowsOf(h any, rows []parser.TableRowToken, k int) []string =
  ite(k <= 0, emptySeq("string"), rowsOf(h, rows, k - 1) + seqOf(ex(h, box(rows[k-1]))))
rec spec colsOf(h any, cols []parser.TableColToken, k int) []string =
  ite(k <= 0, emptySeq("string"), colsOf(h, cols, k - 1) + seqOf(ex(h, box(cols[k-1]))))
rec spec subListsOf(h any, content string, lists []parser.ListToken, k int) []string =
  ite(k <= 0, seqOf(ex(h, box(content))), subListsOf(h, content, lists, k - 1) + seqOf(ex(h, lists[k-1])))
rec spec itemsOf(h any, items []parser.ListItemToken, k int) []string =
  ite(k <= 0, emptySeq("string"), itemsOf(h, items, k - 1) + seqOf(itemHtml(h, items[k-1])))

spec itemText(h any, i parser.ListItemToken) string = strJoin(subListsOf(h, i.Content, i.SubLists, len(i.SubLists)), "\n")
# an item with its own <li> tag keeps it
spec ownTag(text string) bool = prefix(trimSpace(text), "<li")
spec normalItem(text string) string = ite(ownTag(text), ite(contains(text, "</li"), text, text + "</li>"), "<li>\n" + text + "\n</li>")
spec itemHtml(h any, i parser.ListItemToken) string =
  ite(i.Type == parser.NORMAL_ITEM, normalItem(itemText(h, i)),
  ite(i.Type == parser.DESCRIPTION_HEAD, "<div class=\"dt\">\n" + itemText(h, i) + "\n</div>", "<div class=\"dd\">\n" + itemText(h, i) + "\n</div>"))
spec itemOk(h any, i parser.ListItemToken) bool = (i.Type == parser.NORMAL_ITEM || i.Type == parser.DESCRIPTION_HEAD || i.Type == parser.DESCRIPTION_ITEM) && exErr(h, box(i.Content)) == nil && (forall k in 0 .. len(i.SubLists): exErr(h, i.SubLists[k]) == nil)
spec itemsOk(h any, items []parser.ListItemToken) bool = forall i in 0 .. len(items): itemOk(h, items[i])

verify generator.HtmlGenerator.expandHeadings, generator.HtmlGenerator.expandExternalLink, generator.HtmlGenerator.expandInternalLink
verify generator.HtmlGenerator.expandTable, generator.HtmlGenerator.expandTableRow, generator.HtmlGenerator.expandTableColumn, generator.HtmlGenerator.expandTableCaption
verify generator.HtmlGenerator.expandUnorderedList, generator.HtmlGenerator.expandOrderedList, generator.HtmlGenerator.expandDescriptionList, generator.HtmlGenerator.expandListItems, generator.HtmlGenerator.expandListItem
verify generator.HtmlGenerator.expandRefDefinition, generator.HtmlGenerator.expandRefUsage, generator.HtmlGenerator.expandNowiki, generator.HtmlGenerator.expandMarker

func generator.HtmlGenerator.expandHeadings(g, token) (r, err)
  ensures [errors are passed on] (err != nil) <==> exErr(box(g), box(token.Content)) != nil
  ensures [heading of this depth] err == nil ==> r == "<h" + itoa(token.Depth) + ">" + ex(box(g), box(token.Content)) + "</h" + itoa(token.Depth) + ">"
func generator.HtmlGenerator.expandInternalLink(g, token) (r, err)
  ensures [errors are passed on] (err != nil) <==> exErr(box(g), box(token.LinkText)) != nil
  ensures [text of the link] err == nil ==> r == ex(box(g), box(token.LinkText))
func generator.HtmlGenerator.expandExternalLink(g, token) (r, err)
  ensures [errors are passed on] (err != nil) <==> exErr(box(g), box(token.LinkText)) != nil
  ensures [link around its text] err == nil ==> r == "<a href=\"" + token.URL + "\">" + ex(box(g), box(token.LinkText)) + "</a>"

func generator.HtmlGenerator.expandTable(g, token) (r, err)
  ensures [errors are passed on] (err != nil) <==> exErr(box(g), box(token.Caption)) != nil || (exists i in 0 .. len(token.Rows): exErr(box(g), box(token.Rows[i])) != nil)
  ensures [all rows in order] err == nil ==> r == "<div class=\"figure\">\n<table>\n" + strJoin(rowsOf(box(g), token.Rows, len(token.Rows)), "\n") + "\n</table>" + ex(box(g), box(token.Caption)) + "\n</div>"
  loop 1
    invariant expandedRows == rowsOf(box(g), token.Rows, $idx)
    invariant forall i in 0 .. $idx: exErr(box(g), box(token.Rows[i])) == nil
func generator.HtmlGenerator.expandTableRow(g, token) (r, err)
  ensures [errors are passed on] (err != nil) <==> (exists i in 0 .. len(token.Columns): exErr(box(g), box(token.Columns[i])) != nil)
  ensures [all cells in order] err == nil ==> r == "<tr>\n" + strJoin(colsOf(box(g), token.Columns, len(token.Columns)), "\n") + "\n</tr>"
  loop 1
    invariant expandedCols == colsOf(box(g), token.Columns, $idx)
    invariant forall i in 0 .. $idx: exErr(box(g), box(token.Columns[i])) == nil
spec attributes(t parser.TableColToken) string = ite(strJoin(t.Attributes.Attributes, " ") == "", "", " " + strJoin(t.Attributes.Attributes, " "))
func generator.HtmlGenerator.expandTableColumn(g, token) (r, err)
  ensures [errors are passed on] (err != nil) <==> exErr(box(g), box(token.Content)) != nil
  ensures [heading cells] err == nil && token.IsHeading ==> r == "<th" + attributes(token) + ">\n" + ex(box(g), box(token.Content)) + "\n</th>\n"
  ensures [normal cells] err == nil && !token.IsHeading ==> r == "<td" + attributes(token) + ">\n" + ex(box(g), box(token.Content)) + "\n</td>"
func generator.HtmlGenerator.expandTableCaption(g, token) (r, err)
  ensures [errors are passed on] (err != nil) <==> exErr(box(g), box(token.Content)) != nil
  ensures [caption] err == nil ==> r == "\n<div class=\"caption\">\n" + ex(box(g), box(token.Content)) + "\n</div>"

func generator.HtmlGenerator.expandUnorderedList(g, token) (r, err)
  ensures [errors are passed on] (err == nil) <==> itemsOk(box(g), token.Items)
  ensures [unordered list] err == nil ==> r == "<ul>\n" + strJoin(itemsOf(box(g), token.Items, len(token.Items)), "\n") + "\n</ul>"
func generator.HtmlGenerator.expandOrderedList(g, token) (r, err)
  ensures [errors are passed on] (err == nil) <==> itemsOk(box(g), token.Items)
  ensures [ordered list] err == nil ==> r == "<ol>\n" + strJoin(itemsOf(box(g), token.Items, len(token.Items)), "\n") + "\n</ol>"
func generator.HtmlGenerator.expandDescriptionList(g, token) (r, err)
  ensures [errors are passed on] (err == nil) <==> itemsOk(box(g), token.Items)
  ensures [description list] err == nil ==> r == "<div class=\"description-list\">\n" + strJoin(itemsOf(box(g), token.Items, len(token.Items)), "\n") + "\n</div>"
func generator.HtmlGenerator.expandListItems(g, items) (r, err)
  ensures [errors are passed on] (err == nil) <==> itemsOk(box(g), items)
  ensures [all items in order] err == nil ==> r == strJoin(itemsOf(box(g), items, len(items)), "\n")
  loop 1
    invariant expandedItems == itemsOf(box(g), items, $idx)
    invariant forall i in 0 .. $idx: itemOk(box(g), items[i])
func generator.HtmlGenerator.expandListItem(g, token) (r, err)
  ensures [errors are passed on] (err == nil) <==> itemOk(box(g), token)
  ensures [item with its content and sub-lists] err == nil ==> r == itemHtml(box(g), token)
  loop 1
    invariant listItemContents == subListsOf(box(g), token.Content, token.SubLists, $idx)
    invariant forall i in 0 .. $idx: exErr(box(g), token.SubLists[i]) == nil

func generator.HtmlGenerator.expandRefDefinition(g, token) (r, err)
  ensures [errors are passed on] (err != nil) <==> exErr(box(g), box(token.Content)) != nil
  ensures [number and content] err == nil ==> r == "[" + itoa(token.Index + 1) + "] " + ex(box(g), box(token.Content)) + "<br>"
func generator.HtmlGenerator.expandRefUsage(g, token) (r)
  ensures [number] r == "[" + itoa(token.Index + 1) + "]"
func generator.HtmlGenerator.expandNowiki(g, token) (r)
  ensures [kept] r == token.Content
spec bold(s string) string = replaceAll(replaceAll(s, "$$MARKER_BOLD_OPEN$$", "<b>"), "$$MARKER_BOLD_CLOSE$$", "</b>")
spec italic(s string) string = replaceAll(replaceAll(s, "$$MARKER_ITALIC_OPEN$$", "<i>"), "$$MARKER_ITALIC_CLOSE$$", "</i>")
func generator.HtmlGenerator.expandMarker(g, content) (r)
  ensures [opening and closing tags] r == replaceAll(italic(bold(content)), "$$MARKER_PARAGRAPH$$", "<br><br>")
