/* Reference definitions of <string.h> functions, linked into the analysed
   module so that the interpreter forks on symbolic bytes by itself. */
typedef unsigned long size_t;
#define NULL ((void*)0)

size_t strlen(const char* s)
{
  size_t n = 0;
  while (s[n]) n++;
  return n;
}

int strcmp(const char* a, const char* b)
{
  while (*a && *a == *b) a++, b++;
  if (*a == *b) return 0;
  return *(unsigned char*)a < *(unsigned char*)b ? -1 : 1;
}

int strncmp(const char* a, const char* b, size_t n)
{
  while (n && *a && *a == *b) a++, b++, n--;
  if (!n || *a == *b) return 0;
  return *(unsigned char*)a < *(unsigned char*)b ? -1 : 1;
}

char* strcpy(char* d, const char* s)
{
  char* r = d;
  while ((*d++ = *s++) != 0) ;
  return r;
}

char* strncpy(char* d, const char* s, size_t n)
{
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}

char* strcat(char* d, const char* s)
{
  char* r = d;
  while (*d) d++;
  while ((*d++ = *s++) != 0) ;
  return r;
}

char* strchr(const char* s, int c)
{
  for (;; s++)
  {
    if (*s == (char)c) return (char*)s;
    if (!*s) return NULL;
  }
}

char* strrchr(const char* s, int c)
{
  char* r = NULL;
  for (;; s++)
  {
    if (*s == (char)c) r = (char*)s;
    if (!*s) return r;
  }
}

char* strpbrk(const char* s, const char* set)
{
  const char* p;
  for (; *s; s++)
    for (p = set; *p; p++)
      if (*s == *p) return (char*)s;
  return NULL;
}

size_t strspn(const char* s, const char* set)
{
  size_t n = 0;
  const char* p;
  for (; s[n]; n++)
  {
    for (p = set; *p && *p != s[n]; p++) ;
    if (!*p) break;
  }
  return n;
}

size_t strcspn(const char* s, const char* set)
{
  size_t n = 0;
  const char* p;
  for (; s[n]; n++)
  {
    for (p = set; *p && *p != s[n]; p++) ;
    if (*p) break;
  }
  return n;
}

char* strstr(const char* s, const char* t)
{
  size_t i;
  for (;; s++)
  {
    for (i = 0; t[i] && s[i] == t[i]; i++) ;
    if (!t[i]) return (char*)s;
    if (!*s) return NULL;
  }
}

static char* strtok_pos;
char* strtok(char* s, const char* sep)
{
  char* r;
  if (!s) s = strtok_pos;
  if (!s) return NULL;
  s += strspn(s, sep);
  if (!*s) { strtok_pos = NULL; return NULL; }
  r = s;
  s += strcspn(s, sep);
  if (*s) *s = 0, strtok_pos = s + 1;
  else strtok_pos = NULL;
  return r;
}
