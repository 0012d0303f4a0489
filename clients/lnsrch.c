/* Most general client of the line search interface: any number of searches, any number of iterations, any values. */
#include "optimpack-private.h"

extern int v_more(void);
extern double v_real(void);
extern void v_started(opk_lnsrch* ls, opk_lnsrch_task task, double f0, double g0, double stp, double stpmin,
                      double stpmax, opk_lnsrch_task task1, opk_status status, double step);
extern void v_iterated(opk_lnsrch* ls, opk_lnsrch_task before, double stp0, double arg, double f, double g,
                       double f0, double g0, double stpmin, double stpmax, opk_lnsrch_task task,
                       opk_lnsrch_task task1, opk_status status, double stp1, double step);

void
lnsrch_client(opk_lnsrch* ls)
{
  while (v_more()) {
    double f0 = v_real(), g0 = v_real(), stp = v_real(), stpmin = v_real(), stpmax = v_real();
    opk_lnsrch_task task = opk_lnsrch_start(ls, f0, g0, stp, stpmin, stpmax);
    v_started(ls, task, f0, g0, stp, stpmin, stpmax, opk_lnsrch_get_task(ls), opk_lnsrch_get_status(ls),
              opk_lnsrch_get_step(ls));
    while (v_more()) {
      opk_lnsrch_task before = opk_lnsrch_get_task(ls);
      double stp0 = opk_lnsrch_get_step(ls);
      double arg = v_more() ? stp0 : v_real();
      double f = v_real(), g = v_real(), stp1 = arg;
      task = opk_lnsrch_iterate(ls, &stp1, f, g);
      v_iterated(ls, before, stp0, arg, f, g, f0, g0, stpmin, stpmax, task, opk_lnsrch_get_task(ls),
                 opk_lnsrch_get_status(ls), stp1, opk_lnsrch_get_step(ls));
    }
  }
}
