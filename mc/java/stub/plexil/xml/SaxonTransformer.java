package plexil.xml;
public class SaxonTransformer {
    public void setIndent(boolean b) { }
    public void loadStylesheetFromURL(String s) { }
    public boolean translateDOM(org.w3c.dom.Document d, java.io.File f) { return true; }
}
