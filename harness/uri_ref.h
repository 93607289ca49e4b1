/* Reference for the grammar URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ] of RFC 3986 and for the text components stand for. */
#ifndef URI_REF_H
#define URI_REF_H
enum { SCHEME, USER, HOST, PORT, PATH, QUERY, FRAG, NCOMP };
#define MAXL 24
static char X[NCOMP][MAXL];             /* expected decoded text */
static int XL[NCOMP], have[NCOMP];
static int bad, lenient;

static int hexv(int c)
{
    c = (unsigned char)c;
    return (c - '0') * (c >= '0') * (c <= '9') + (c - 'a' + 10) * (c >= 'a') * (c <= 'f') + (c - 'A' + 10) * (c >= 'A') * (c <= 'F')
         - !((c >= '0') * (c <= '9') + (c >= 'a') * (c <= 'f') + (c >= 'A') * (c <= 'F'));
}
static void expect(int k, const char *s, int from, int to)
{
    have[k] = 1;
    for (int i = from; i < to; i++)
    {
        int c = (unsigned char)s[i];
        if (c == '%')
        {
            if (i + 2 >= to || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0) { bad = 1; return; }
            c = hexv(s[i + 1]) * 16 + hexv(s[i + 2]);
            if (c == 0) { bad = 1; return; }    /* cannot be represented */
            i += 2;
        }
        X[k][XL[k]++] = (char)c;
    }
    X[k][XL[k]] = '\0';
}
static int first(const char *s, int from, int to, const char *set)
{
    for (int i = from; i < to; i++) for (int j = 0; set[j] != '\0'; j++) if (s[i] == set[j]) return i;
    return to;
}
static void ref(const char *s, int n)
{
    int p = 0, e = 0, f = 0, q = 0;
    if (s[0] != '/')
    {
        p = first(s, 0, n, ":/?#");
        if (p == n || s[p] != ':' || p == 0) lenient = 1;        /* no scheme: a relative reference, not supported */
        if (lenient) return;
        expect(SCHEME, s, 0, p);
        p++;
    }
    f = first(s, p, n, "#");
    q = first(s, p, f, "?");
    if (q - p >= 2 && s[p] == '/' && s[p + 1] == '/')
    {
        int at = 0, col = 0, in = 0;
        p += 2;
        e = first(s, p, q, "/");                /* the authority is p..e */
        at = first(s, p, e, "@");
        if (at < e)
        {
            expect(USER, s, p, at); p = at + 1;
            if (first(s, p, e, "@") < e) lenient = 1;
        }
        for (col = p; col < e; col++)
        {
            if (s[col] == '[') { if (in || col != p) lenient = 1; in = 1; }
            else if (s[col] == ']') { if (!in || (col + 1 < e && s[col + 1] != ':')) lenient = 1; in = 0; }
            else if (s[col] == ':' && !in) break;
        }
        if (in) lenient = 1;
        if (col < e) { expect(PORT, s, col + 1, e); if (first(s, col + 1, e, ":[]") < e) lenient = 1; }
        if (p < col)
        {
            if (s[p] == '[' && col - p > 2) expect(HOST, s, p + 1, col - 1);
            else if (s[p] == '[') lenient = 1;
            else expect(HOST, s, p, col);
        }
        p = e;
    }
    if (p < q) expect(PATH, s, p, q);
    if (q < f) expect(QUERY, s, q + 1, f);
    if (f < n) expect(FRAG, s, f + 1, n);
}
#define IN(c, a, b) ((unsigned)(c) - (a) <= (unsigned)((b) - (a)))
static int unres(int c)
{
    return IN(c, 'a', 'z') | IN(c, 'A', 'Z') | IN(c, '0', '9') | (c == '-') | (c == '.') | (c == '_') | (c == '~')
         | (c == '!') | (c == '$') | (c == '&') | (c == '\'') | (c == '(') | (c == ')') | (c == '*') | (c == '+') | (c == ',') | (c == ';') | (c == '=');
}
/* the text the components stand for */
#define MAXT 80
static char T[MAXT];
static int TL;
static void put(int c) { T[TL++] = (char)c; }
static void enc(int k, const char *also)
{
    for (int i = 0; i < XL[k]; i++)
    {
        int c = (unsigned char)X[k][i], plain = unres(c);
        for (int j = 0; also[j] != '\0'; j++) plain |= (c == also[j]);
        if (plain) put(c);
        else { put('%'); put("0123456789ABCDEF"[c >> 4]); put("0123456789ABCDEF"[c & 15]); }
    }
}
static void text(void)
{
    int v6 = 0;
    if (have[SCHEME]) { enc(SCHEME, ""); put(':'); }
    if (have[USER] || have[HOST] || have[PORT]) { put('/'); put('/'); }
    if (have[USER]) { enc(USER, ":"); put('@'); }
    if (have[HOST])
    {
        for (int i = 0; i < XL[HOST]; i++) if (X[HOST][i] == ':') v6 = 1;
        if (v6) put('[');
        enc(HOST, ":");
        if (v6) put(']');
    }
    if (have[PORT]) { put(':'); enc(PORT, ""); }
    if (have[PATH]) enc(PATH, "/:@");
    if (have[QUERY]) { put('?'); enc(QUERY, "?/:@"); }
    if (have[FRAG]) { put('#'); enc(FRAG, "?/:@"); }
}
#endif
