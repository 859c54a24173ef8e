#include "sru.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
namespace sim {
static std::string text(xmlNode *n)
{
    xmlChar *c = xmlNodeGetContent(n);
    std::string s = c ? (char *) c : "";
    xmlFree(c);
    return s;
}
static int diag_no(const std::string &uri)
{
    size_t p = uri.rfind('/');
    return atoi(uri.c_str() + (p == std::string::npos ? 0 : p + 1));
}
static xmlNode *child(xmlNode *n, const char *name)
{
    for (xmlNode *c = n ? n->children : 0; c; c = c->next)
        if (c->type == XML_ELEMENT_NODE && !strcmp((const char *) c->name, name))
            return c;
    return 0;
}
static xmlNode *deep(xmlNode *n, const char *name)
{
    for (xmlNode *c = n; c; c = c->next)
    {
        if (c->type == XML_ELEMENT_NODE && !strcmp((const char *) c->name, name))
            return c;
        if (xmlNode *d = deep(c->children, name))
            return d;
    }
    return 0;
}
SruResp parse_sru(const std::string &body)
{
    SruResp r;
    xmlDoc *doc = xmlReadMemory(body.data(), (int) body.size(), "x", 0,
                                XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!doc)
        return r;
    xmlNode *root = xmlDocGetRootElement(doc);
    if (root && !strcmp((const char *) root->name, "Envelope"))
    {
        root = child(root, "Body");
        for (root = root ? root->children : 0; root && root->type != XML_ELEMENT_NODE; )
            root = root->next;
    }
    if (root)
    {
        r.wellformed = true;
        r.root = (const char *) root->name;
        for (xmlNode *c = root->children; c; c = c->next)
        {
            std::string n = c->type == XML_ELEMENT_NODE ? (const char *) c->name : "";
            if (n == "numberOfRecords")
                r.hits = atoll(text(c).c_str());
            else if (n == "nextRecordPosition")
                r.next = atoll(text(c).c_str());
            else if (n == "records")
                for (xmlNode *e = c->children; e; e = e->next)
                {
                    if (e->type != XML_ELEMENT_NODE)
                        continue;
                    SruRec x;
                    x.diag = 0;
                    xmlNode *p = child(e, "recordPosition");
                    x.pos = p ? atoll(text(p).c_str()) : -1;
                    if ((p = child(e, "recordSchema")))
                        x.schema = text(p);
                    if ((p = child(e, "recordPacking")))
                        x.packing = text(p);
                    if ((p = child(e, "recordData")))
                    {
                        xmlNode *k = p->children;
                        while (k && k->type != XML_ELEMENT_NODE)
                            k = k->next;
                        if (k)
                        {
                            xmlBuffer *b = xmlBufferCreate();
                            xmlNodeDump(b, doc, k, 0, 0);
                            x.data = (const char *) xmlBufferContent(b);
                            xmlBufferFree(b);
                            if (!strcmp((const char *) k->name, "diagnostic"))
                            {
                                xmlNode *u = child(k, "uri");
                                x.diag = u ? diag_no(text(u)) : -1;
                            }
                        }
                        else
                        {
                            x.data = text(p);
                            if (x.data.find("<diagnostic") != std::string::npos)
                            {
                                size_t q = x.data.find("diagnostic/1/");
                                x.diag = q == std::string::npos ? -1 :
                                    atoi(x.data.c_str() + q + 13);
                            }
                        }
                    }
                    r.recs.push_back(x);
                }
            else if (n == "diagnostics")
                for (xmlNode *e = c->children; e; e = e->next)
                    if (e->type == XML_ELEMENT_NODE)
                    {
                        xmlNode *u = child(e, "uri");
                        r.diags.push_back(u ? diag_no(text(u)) : -1);
                    }
        }
        if (xmlNode *e = deep(root, "recordData"))
        {
            std::string t = text(e);
            if (xmlDoc *ed = xmlReadMemory(t.c_str(), t.size(), "x", 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING))
            {
                if ((e = deep(xmlDocGetRootElement(ed), "database")))
                    r.explain_db = text(e);
                xmlFreeDoc(ed);
            }
        }
        if (xmlNode *e = r.explain_db.empty() ? deep(root, "database") : 0)
            r.explain_db = text(e);
        if (xmlNode *e = deep(root, "host"))
            r.explain_host = text(e);
    }
    xmlFreeDoc(doc);
    return r;
}
std::string urlenc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
        o += isalnum(c) || c == '_' || c == '-' || c == '.' ? std::string(1, c) : strf("%%%02X", c);
    return o;
}
}
