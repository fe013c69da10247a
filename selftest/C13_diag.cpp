// Constructs that the compiler diagnostics of C13 must report.
enum class E { a, b };
int h1(E e, int& i)
{
    switch (e) {
        case E::a:
            i = 1;
        case E::b: // BAD
            i = 2;
    }
    return i;
}
int h2(int i)
{
    if (i > 0)
        return 1;
} // BAD
int h3(E e)
{
    switch (e) { // BAD
        case E::a:
            return 1;
    }
    return 0;
}
