// drawing is not simulated
#pragma once
extern "C" {
void glColor3f(float, float, float) {}
void glPushAttrib(unsigned) {}
void glPopAttrib() {}
void glDisable(unsigned) {}
void glBegin(unsigned) {}
void glEnd() {}
void glVertex3f(float, float, float) {}
}
