From 59bb386bc5e54947b0e97bd0e8fa353b6fc240c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 01/38] fix: continuation algorithms: forward an exception of
 the inner continuation instead of losing it

---
 boost/asynchronous/algorithm/if_else.hpp      |  27 ++++-
 boost/asynchronous/algorithm/if_then_else.hpp |  18 ++-
 .../algorithm/parallel_all_of.hpp             |   9 +-
 .../algorithm/parallel_any_of.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_copy.hpp  |  18 ++-
 .../asynchronous/algorithm/parallel_count.hpp |  18 ++-
 .../algorithm/parallel_find_all.hpp           |  18 ++-
 .../algorithm/parallel_find_end.hpp           |   9 +-
 .../algorithm/parallel_find_first_of.hpp      |   9 +-
 boost/asynchronous/algorithm/parallel_for.hpp |   9 +-
 .../asynchronous/algorithm/parallel_move.hpp  |  18 ++-
 .../algorithm/parallel_none_of.hpp            |   9 +-
 .../algorithm/parallel_partition.hpp          |   9 +-
 .../algorithm/parallel_reduce.hpp             |  18 ++-
 .../algorithm/parallel_replace_copy.hpp       |  18 ++-
 .../algorithm/parallel_reverse.hpp            |  18 ++-
 .../algorithm/parallel_search.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_sort.hpp  | 108 ++++++++++++++++--
 .../algorithm/parallel_sort_inplace.hpp       |  54 ++++++++-
 .../algorithm/parallel_stable_partition.hpp   |   9 +-
 20 files changed, 368 insertions(+), 46 deletions(-)

diff --git a/boost/asynchronous/algorithm/if_else.hpp b/boost/asynchronous/algorithm/if_else.hpp
index 5f8c3ae..8655b3d 100644
--- a/boost/asynchronous/algorithm/if_else.hpp
+++ b/boost/asynchronous/algorithm/if_else.hpp
@@ -50,7 +50,14 @@ struct if_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -113,7 +120,14 @@ struct else_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                                 typename std::tuple_element<1,typename Continuation::return_type>::type> >&& prev_res)
                             {
-                                task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -173,7 +187,14 @@ struct else_if_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                             typename std::tuple_element<1,typename Continuation::return_type>::type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/if_then_else.hpp b/boost/asynchronous/algorithm/if_then_else.hpp
index 4ffdf7c..b19c902 100644
--- a/boost/asynchronous/algorithm/if_then_else.hpp
+++ b/boost/asynchronous/algorithm/if_then_else.hpp
@@ -53,7 +53,14 @@ struct if_then_else_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -63,7 +70,14 @@ struct if_then_else_continuation_helper :
                         else_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/parallel_all_of.hpp b/boost/asynchronous/algorithm/parallel_all_of.hpp
index 2ea9cd1..027c9fb 100644
--- a/boost/asynchronous/algorithm/parallel_all_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_all_of.hpp
@@ -103,7 +103,14 @@ struct parallel_all_of_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_any_of.hpp b/boost/asynchronous/algorithm/parallel_any_of.hpp
index b35c3d3..edb6eb6 100644
--- a/boost/asynchronous/algorithm/parallel_any_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_any_of.hpp
@@ -103,7 +103,14 @@ struct parallel_any_of_continuation_range_helper: public boost::asynchronous::co
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 5a268fa..3dfa1db 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -244,7 +244,14 @@ struct parallel_copy_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -294,7 +301,14 @@ struct parallel_copy_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_count.hpp b/boost/asynchronous/algorithm/parallel_count.hpp
index c062bfc..2e23e49 100644
--- a/boost/asynchronous/algorithm/parallel_count.hpp
+++ b/boost/asynchronous/algorithm/parallel_count.hpp
@@ -434,7 +434,14 @@ struct parallel_count_continuation_range_helper: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<std::future<long> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -483,7 +490,14 @@ struct parallel_count_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<long> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_all.hpp b/boost/asynchronous/algorithm/parallel_find_all.hpp
index 7e22533..adc9076 100644
--- a/boost/asynchronous/algorithm/parallel_find_all.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_all.hpp
@@ -418,7 +418,14 @@ struct parallel_find_all_continuation_range_helper: public boost::asynchronous::
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -468,7 +475,14 @@ struct parallel_find_all_continuation_range_helper<Continuation,Func,ReturnRange
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 76c577f..eb4e8f2 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -203,7 +203,14 @@ struct parallel_find_end_range_helper: public boost::asynchronous::continuation_
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_first_of.hpp b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
index cf09e34..5c15549 100644
--- a/boost/asynchronous/algorithm/parallel_find_first_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
@@ -172,7 +172,14 @@ struct parallel_find_first_of_range_helper: public boost::asynchronous::continua
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_for.hpp b/boost/asynchronous/algorithm/parallel_for.hpp
index a82ecc4..6a7b984 100644
--- a/boost/asynchronous/algorithm/parallel_for.hpp
+++ b/boost/asynchronous/algorithm/parallel_for.hpp
@@ -434,7 +434,14 @@ struct parallel_for_continuation_range_helper: public boost::asynchronous::conti
                     auto new_continuation = boost::asynchronous::parallel_for<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index 9d05d4e..d65674c 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -243,7 +243,14 @@ struct parallel_move_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -293,7 +300,14 @@ struct parallel_move_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_none_of.hpp b/boost/asynchronous/algorithm/parallel_none_of.hpp
index 3b675ec..656e736 100644
--- a/boost/asynchronous/algorithm/parallel_none_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_none_of.hpp
@@ -103,7 +103,14 @@ struct parallel_none_of_continuation_range_helper: public boost::asynchronous::c
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index aae94b8..da778d0 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -515,7 +515,14 @@ struct parallel_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reduce.hpp b/boost/asynchronous/algorithm/parallel_reduce.hpp
index 6e9e808..2a3c321 100644
--- a/boost/asynchronous/algorithm/parallel_reduce.hpp
+++ b/boost/asynchronous/algorithm/parallel_reduce.hpp
@@ -487,7 +487,14 @@ struct parallel_reduce_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([task_res]
                                              (std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -540,7 +547,14 @@ struct parallel_reduce_continuation_range_helper<Continuation,Func,Func2,ReturnT
                           (std::move(std::get<0>(continuation_res).get()),func,func2,cutoff,task_name,prio);
                   new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res)
                   {
-                      task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      try
+                      {
+                          task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      }
+                      catch(...)
+                      {
+                          task_res.set_exception(std::current_exception());
+                      }
                   });
               }
               catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_replace_copy.hpp b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
index 1773981..bbdaad3 100644
--- a/boost/asynchronous/algorithm/parallel_replace_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
@@ -76,7 +76,14 @@ struct parallel_replace_copy_if_continuation_helper: public boost::asynchronous:
                                 (boost::begin(*res),boost::end(*res),res_it,func,new_value,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -173,7 +180,14 @@ struct parallel_replace_copy_continuation_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reverse.hpp b/boost/asynchronous/algorithm/parallel_reverse.hpp
index c51eb51..69d9264 100644
--- a/boost/asynchronous/algorithm/parallel_reverse.hpp
+++ b/boost/asynchronous/algorithm/parallel_reverse.hpp
@@ -157,7 +157,14 @@ struct parallel_reverse_continuation_range_helper: public boost::asynchronous::c
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -206,7 +213,14 @@ struct parallel_reverse_continuation_range_helper<Continuation,Job,
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 5c5cc9f..6d9d8b1 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -202,7 +202,14 @@ struct parallel_search_range_helper: public boost::asynchronous::continuation_ta
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 268a2f8..cc5aee0 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -1026,7 +1026,14 @@ struct parallel_sort_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1075,7 +1082,14 @@ struct parallel_sort_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1122,7 +1136,14 @@ struct parallel_stable_sort_continuation_range_helper: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1172,7 +1193,14 @@ struct parallel_stable_sort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1219,7 +1247,14 @@ struct parallel_spreadsort_continuation_range_helper: public boost::asynchronous
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1269,7 +1304,14 @@ struct parallel_spreadsort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1359,7 +1401,14 @@ struct parallel_sort_continuation_range_helper2: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1408,7 +1457,14 @@ struct parallel_sort_continuation_range_helper2<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1455,7 +1511,14 @@ struct parallel_stable_sort_continuation_range_helper2: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1505,7 +1568,14 @@ struct parallel_stable_sort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1552,7 +1622,14 @@ struct parallel_spreadsort_continuation_range_helper2: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1602,7 +1679,14 @@ struct parallel_spreadsort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
index 98634b9..4294062 100644
--- a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
@@ -266,7 +266,14 @@ struct parallel_sort_continuation_range_inplace_helper: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -316,7 +323,14 @@ struct parallel_sort_continuation_range_inplace_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -363,7 +377,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper: public boost::asy
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -413,7 +434,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper<Continuation,Func,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -460,7 +488,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper: public boost::asyn
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -510,7 +545,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper<Continuation,Func,J
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_stable_partition.hpp b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
index 3068a05..cfcce55 100644
--- a/boost/asynchronous/algorithm/parallel_stable_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
@@ -508,7 +508,14 @@ struct parallel_stable_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
-- 
2.43.0


From a380fee214ba1d857916b1e923bcb4a3f0c7b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 02/38] fix: algorithms: exceptions not derived from
 std::exception are forwarded too

---
 .../asynchronous/algorithm/parallel_adjacent_find.hpp  |  2 +-
 boost/asynchronous/algorithm/parallel_copy.hpp         |  2 +-
 .../asynchronous/algorithm/parallel_inner_product.hpp  |  4 ++--
 boost/asynchronous/algorithm/parallel_iota.hpp         |  4 ++--
 boost/asynchronous/algorithm/parallel_move.hpp         |  2 +-
 boost/asynchronous/algorithm/parallel_partition.hpp    |  2 +-
 boost/asynchronous/algorithm/parallel_transform.hpp    | 10 +++++-----
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
index 87c1f9d..42b150e 100644
--- a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
+++ b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
@@ -88,7 +88,7 @@ struct parallel_adjacent_find_helper : public boost::asynchronous::continuation_
                                 task_res.set_value(std::get<1>(res).get());
                             }
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 3dfa1db..dd33714 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -83,7 +83,7 @@ struct parallel_copy_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_inner_product.hpp b/boost/asynchronous/algorithm/parallel_inner_product.hpp
index 8d2cbb6..76da740 100644
--- a/boost/asynchronous/algorithm/parallel_inner_product.hpp
+++ b/boost/asynchronous/algorithm/parallel_inner_product.hpp
@@ -590,7 +590,7 @@ struct parallel_inner_product_continuation_helper: public boost::asynchronous::c
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
@@ -664,7 +664,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index 766486a..fadc7e8 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -65,7 +65,7 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
                                 std::get<1>(res).get();
                                 task_res.set_value();
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
@@ -143,7 +143,7 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
                                 std::get<1>(res).get();
                                 task_res.set_value(std::move(*range));
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index d65674c..5e99982 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -82,7 +82,7 @@ struct parallel_move_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index da778d0..d9bfa5c 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -160,7 +160,7 @@ struct partition_worker : public boost::asynchronous::continuation_task<std::pai
                         task_res.set_value(std::make_pair(std::move(l_rest), std::move(r_rest)));
                         return;
                     }
-                    catch (std::exception& )
+                    catch (...)
                     {
                         task_res.set_exception(std::current_exception());
                         return;
diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index 5e31a41..f86cf1d 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -142,7 +142,7 @@ struct parallel_transform_helper : public boost::asynchronous::continuation_task
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -236,7 +236,7 @@ struct parallel_transform2_helper : public boost::asynchronous::continuation_tas
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -320,7 +320,7 @@ struct parallel_transform_range_helper : public boost::asynchronous::continuatio
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -411,7 +411,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -510,7 +510,7 @@ struct parallel_transform_any_iterators_helper : public boost::asynchronous::con
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
-- 
2.43.0


From b991aa268e10e6147de1fc0d5e3ad8c281fd5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 03/38] fix: parallel_transform of two ranges advances in the
 second range

---
 boost/asynchronous/algorithm/parallel_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index f86cf1d..6c9179f 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -392,7 +392,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
             std::size_t dist = std::distance(boost::begin(range1_), it1);
 
             // advance seconf up to first cutoff
-            auto it2 = boost::begin(range1_) + dist;
+            auto it2 = boost::begin(range2_) + dist;
 
             // if not at end, recurse, otherwise execute here
             if (it1 == boost::end(range1_))
-- 
2.43.0


From 2c3ba1a1daffe211c9820bdc051477bf3bf7006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 04/38] fix: parallel_iota forwards exceptions thrown by a
 subtask

---
 .../asynchronous/algorithm/parallel_iota.hpp  | 138 ++++++++++--------
 1 file changed, 76 insertions(+), 62 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index fadc7e8..92079ef 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -42,38 +42,45 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
     {
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
         
-        // Advance iterator up to the cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
-        // If the end is reached, use this thread to execute the subtask, otherwise recurse
-        if (it == end_)
+        try
         {
-            std::iota(beg_, it, start_);
-            task_res.set_value();
+            // Advance iterator up to the cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
+            // If the end is reached, use this thread to execute the subtask, otherwise recurse
+            if (it == end_)
+            {
+                std::iota(beg_, it, start_);
+                task_res.set_value();
+            }
+            else
+            {
+                auto distance = std::distance(beg_, it);
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // Callback
+                            [task_res]
+                            (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
+                            {
+                                try
+                                {
+                                    // Call get() to check for exceptions
+                                    std::get<0>(res).get();
+                                    std::get<1>(res).get();
+                                    task_res.set_value();
+                                }
+                                catch (...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
+                            },
+                            // recursive tasks
+                            parallel_iota_inplace_helper<Iterator, Job>(beg_, it, start_, cutoff_, this->get_name(), prio_),
+                            parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
+                   );
+            }
         }
-        else
+        catch(...)
         {
-            auto distance = std::distance(beg_, it);
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // Callback
-                        [task_res]
-                        (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
-                        {
-                            try
-                            {
-                                // Call get() to check for exceptions
-                                std::get<0>(res).get();
-                                std::get<1>(res).get();
-                                task_res.set_value();
-                            }
-                            catch (...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_iota_inplace_helper<Iterator, Job>(beg_, it, start_, cutoff_, this->get_name(), prio_),
-                        parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
-               );
+            task_res.set_exception(std::current_exception());
         }
     }
 
@@ -116,42 +123,49 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
         std::shared_ptr<Range> range = std::move(range_);
         boost::asynchronous::continuation_result<Range> task_res = this->this_task_result();
         
-        // Get iterators
-        auto beg = boost::begin(*range);
-        auto end = boost::end(*range);
-
-        // Advance iterator up to the cutoff
-        auto it = boost::asynchronous::detail::find_cutoff(beg, cutoff_, end);
-        // If the end is reached, use this thread to execute the subtask, otherwise recurse
-        if (it == end)
+        try
         {
-            std::iota(beg, it, start_);
-            task_res.set_value(std::move(*range));
+            // Get iterators
+            auto beg = boost::begin(*range);
+            auto end = boost::end(*range);
+
+            // Advance iterator up to the cutoff
+            auto it = boost::asynchronous::detail::find_cutoff(beg, cutoff_, end);
+            // If the end is reached, use this thread to execute the subtask, otherwise recurse
+            if (it == end)
+            {
+                std::iota(beg, it, start_);
+                task_res.set_value(std::move(*range));
+            }
+            else
+            {
+                auto distance = std::distance(beg, it);
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // Callback
+                            [task_res, range]
+                            (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
+                            {
+                                try
+                                {
+                                    // Call get() to check for exceptions
+                                    std::get<0>(res).get();
+                                    std::get<1>(res).get();
+                                    task_res.set_value(std::move(*range));
+                                }
+                                catch (...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
+                            },
+                            // recursive tasks
+                            parallel_iota_inplace_helper<decltype(it), Job>(beg, it, start_, cutoff_, this->get_name(), prio_),
+                            parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
+                   );
+            }
         }
-        else
+        catch(...)
         {
-            auto distance = std::distance(beg, it);
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // Callback
-                        [task_res, range]
-                        (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
-                        {
-                            try
-                            {
-                                // Call get() to check for exceptions
-                                std::get<0>(res).get();
-                                std::get<1>(res).get();
-                                task_res.set_value(std::move(*range));
-                            }
-                            catch (...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_iota_inplace_helper<decltype(it), Job>(beg, it, start_, cutoff_, this->get_name(), prio_),
-                        parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
-               );
+            task_res.set_exception(std::current_exception());
         }
     }
 
-- 
2.43.0


From 1b9fe7b13ca599bd5c6b462f3e8fefc000f903ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 05/38] fix: parallel_partition forwards exceptions of its
 workers and of its last phase

---
 boost/asynchronous/algorithm/parallel_partition.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index d9bfa5c..9ca08dd 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -311,7 +311,8 @@ struct parallel_partition_helper : public boost::asynchronous::continuation_task
                (std::tuple<boost::asynchronous::expected<std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>>> > res)
                 mutable
             {
-
+                try
+                {
                 std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
                 std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
                 std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
@@ -367,6 +368,11 @@ struct parallel_partition_helper : public boost::asynchronous::continuation_task
 
                 task_res.set_value(it_left_plus_rtrue);
                 return;
+                }
+                catch(...)
+                {
+                    task_res.set_exception(std::current_exception());
+                }
             });
         }
         catch(...)
-- 
2.43.0


From e3aa287708a10a592f83d0b60334f0b1d90cd7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 06/38] fix: parallel_all_of/any_of/none_of forward exceptions
 of the predicate

---
 .../algorithm/detail/parallel_all_of_helper.hpp       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
index 770763b..c65bafb 100644
--- a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
+++ b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
@@ -46,6 +46,17 @@ struct parallel_all_of_helper: public boost::asynchronous::continuation_task<boo
     void operator()()const
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
+        try
+        {
+            execute(task_res);
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
+        }
+    }
+    void execute(boost::asynchronous::continuation_result<bool> task_res)const
+    {
         // advance up to cutoff
         Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
         // if not at end, recurse, otherwise execute here
-- 
2.43.0


From 5b16b290c6de95817240b11f4a44af374885930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 07/38] fix: parallel_is_partitioned accepts an empty range

---
 boost/asynchronous/algorithm/parallel_is_partitioned.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
index 2747feb..a8e4477 100644
--- a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
@@ -46,7 +46,13 @@ struct parallel_is_partitioned_helper2:
         {
             // advance up to cutoff
             Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
-            if (it == end_)
+            if (beg_ == end_)
+            {
+                // an empty range is partitioned
+                task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_is_partitioned_state::true_,
+                                                  boost::asynchronous::detail::parallel_is_partitioned_state::false_));
+            }
+            else if (it == end_)
             {
                 bool at_begin = func_(*beg_);
                 bool current = at_begin;
-- 
2.43.0


From 4eeca9fcedd8107e277bc2f9939dd4aa0b1a9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 08/38] fix: parallel_lexicographical_compare splits both
 ranges at the same position and lets the first difference decide

---
 .../parallel_lexicographical_compare.hpp      | 110 +++++++++---------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
index 9d187db..eac4caf 100644
--- a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
+++ b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
@@ -11,9 +11,10 @@
 #define BOOST_ASYNCHRONOUS_PARALLEL_LEXICOGRAPHICAL_COMPARE_HPP
 
 #include <algorithm>
+#include <functional>
+#include <iterator>
 #include <utility>
 #include <type_traits>
-#include <iterator>
 
 
 #include <boost/serialization/vector.hpp>
@@ -32,41 +33,57 @@ namespace boost { namespace asynchronous
 {
 namespace detail
 {
+// three-way comparison of two ranges: < 0 if the first one is less, > 0 if the second one is less, 0 if they are equivalent
+template <class Iterator1, class Iterator2, class Func>
+int lexicographical_compare_3way(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func& func)
+{
+    for (; beg1 != end1 && beg2 != end2 ; ++beg1, ++beg2)
+    {
+        if (func(*beg1,*beg2))
+            return -1;
+        if (func(*beg2,*beg1))
+            return 1;
+    }
+    return (beg1 != end1) ? 1 : ((beg2 != end2) ? -1 : 0);
+}
 // version for iterators
 template <class Iterator1, class Iterator2, class Func,class Job>
-struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<bool>
+struct parallel_lexicographical_compare_helper2: public boost::asynchronous::continuation_task<int>
 {
-    parallel_lexicographical_compare_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
+    parallel_lexicographical_compare_helper2(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
-        : boost::asynchronous::continuation_task<bool>(task_name)
+        : boost::asynchronous::continuation_task<int>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
         ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
-        boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
+        boost::asynchronous::continuation_result<int> task_res = this->this_task_result();
         try
         {
             // advance up to cutoff
             Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
+            // both ranges have to be split at the same position
+            auto dist = std::distance(beg1_,it1);
             // if not at end, recurse, otherwise execute here
-            if ((it1 == end1_) || (it2 == end2_))
+            if ((it1 == end1_) || (std::distance(beg2_,end2_) <= dist))
             {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_,func_));
+                task_res.set_value(boost::asynchronous::detail::lexicographical_compare_3way(beg1_,end1_,beg2_,end2_,func_));
             }
             else
             {
+                Iterator2 it2 = std::next(beg2_,dist);
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+                            [task_res](std::tuple<boost::asynchronous::expected<int>,boost::asynchronous::expected<int>> res) mutable
                             {
                                 try
                                 {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
+                                    int r1 = std::get<0>(res).get();
+                                    int r2 = std::get<1>(res).get();
+                                    // the first difference decides
+                                    if (r1 != 0)
+                                        task_res.set_value(r1);
                                     else
                                         task_res.set_value(r2);
                                 }
@@ -76,9 +93,9 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
                                 }
                             },
                             // recursive tasks
-                            parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Func,Job>
                                     (beg1_,it1,beg2_,it2,func_,cutoff_,this->get_name(),prio_),
-                            parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Func,Job>
                                     (it1,end1_,it2,end2_,func_,cutoff_,this->get_name(),prio_)
                 );
             }
@@ -96,55 +113,37 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
     long cutoff_;
     std::size_t prio_;
 };
-template <class Iterator1, class Iterator2,class Job>
-struct parallel_lexicographical_compare_helper2: public boost::asynchronous::continuation_task<bool>
+template <class Iterator1, class Iterator2, class Func,class Job>
+struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<bool>
 {
-    parallel_lexicographical_compare_helper2(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2,long cutoff,
+    parallel_lexicographical_compare_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
         : boost::asynchronous::continuation_task<bool>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
-        , cutoff_(cutoff),prio_(prio)
+        ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
         try
         {
-            // advance up to cutoff
-            Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
-            // if not at end, recurse, otherwise execute here
-            if ((it1 == end1_) || (it2 == end2_))
-            {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_));
-            }
-            else
-            {
-                boost::asynchronous::create_callback_continuation_job<Job>(
-                            // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+            boost::asynchronous::create_callback_continuation_job<Job>(
+                        // called when subtasks are done, set our result
+                        [task_res](std::tuple<boost::asynchronous::expected<int>> res) mutable
+                        {
+                            try
                             {
-                                try
-                                {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
-                                    else
-                                        task_res.set_value(r2);
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            },
-                            // recursive tasks
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (beg1_,it1,beg2_,it2,cutoff_,this->get_name(),prio_),
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (it1,end1_,it2,end2_,cutoff_,this->get_name(),prio_)
-                );
-            }
+                                task_res.set_value(std::get<0>(res).get() < 0);
+                            }
+                            catch(...)
+                            {
+                                task_res.set_exception(std::current_exception());
+                            }
+                        },
+                        // recursive tasks
+                        parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Func,Job>
+                                (beg1_,end1_,beg2_,end2_,func_,cutoff_,this->get_name(),prio_)
+            );
         }
         catch(...)
         {
@@ -155,6 +154,7 @@ struct parallel_lexicographical_compare_helper2: public boost::asynchronous::con
     Iterator1 end1_;
     Iterator2 beg2_;
     Iterator2 end2_;
+    Func func_;
     long cutoff_;
     std::size_t prio_;
 };
@@ -186,8 +186,8 @@ parallel_lexicographical_compare(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,I
 #endif
 {
     return boost::asynchronous::top_level_callback_continuation_job<bool,Job>
-            (boost::asynchronous::detail::parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                (beg1,end1,beg2,end2,cutoff,task_name,prio));
+            (boost::asynchronous::detail::parallel_lexicographical_compare_helper<Iterator1,Iterator2,std::less<>,Job>
+                (beg1,end1,beg2,end2,std::less<>(),cutoff,task_name,prio));
 }
 }}
 
-- 
2.43.0


From a0ce5e23508c828241b2e406290707040ed4533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 09/38] fix: post_future of a continuation<void> delivers its
 exception

---
 boost/asynchronous/post.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 806c6bf..6d8ab12 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -410,6 +410,8 @@ namespace detail
                 {
                     try
                     {
+                        // check for exception
+                        std::get<0>(continuation_res).get();
                         m_promise.set_value();
                     }
                     catch(...)
-- 
2.43.0


From cc32e0b70ed86e3c8a1d1ebe0e0d619c271c71d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 10/38] fix: post_future of a serializable continuation
 delivers the exception instead of task_aborted_exception

---
 boost/asynchronous/post.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 6d8ab12..8730b00 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -490,7 +490,7 @@ namespace detail
             template <class Res>
             void operator()(std::tuple<Res>&& continuation_res)
             {
-                if(!std::get<0>(continuation_res).has_value())
+                if(!boost::asynchronous::is_ready(std::get<0>(continuation_res)))
                 {
                     boost::asynchronous::task_aborted_exception ta;
                     m_promise.set_exception(std::make_exception_ptr(ta));
-- 
2.43.0


From e11d65ea084268a69e166b40feafec262e3327b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 11/38] fix: copying an expected without a value no longer
 dereferences null

---
 boost/asynchronous/expected.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/expected.hpp b/boost/asynchronous/expected.hpp
index 1838834..f06d48b 100644
--- a/boost/asynchronous/expected.hpp
+++ b/boost/asynchronous/expected.hpp
@@ -64,7 +64,7 @@ public:
      * \brief copy constructor noexcept
      */
     expected(expected const& rhs) noexcept
-        : m_value(std::make_shared<value_type>(*rhs.m_value))
+        : m_value(!!rhs.m_value ? std::make_shared<value_type>(*rhs.m_value) : std::shared_ptr<value_type>())
         , m_exception(rhs.m_exception)
     {
     }
@@ -84,7 +84,9 @@ public:
      */
     expected& operator=(expected const& rhs) noexcept
     {
-        if(!!m_value)
+        if(!rhs.m_value)
+            m_value.reset();
+        else if(!!m_value)
             *m_value=*rhs.m_value;
         else
             m_value = std::make_shared<value_type>(*rhs.m_value);
-- 
2.43.0


From 4d64bc27f41178d02e744dec02259be460c5b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 12/38] fix: guarded_deque counts the pushed job in its maximum
 size

---
 boost/asynchronous/queue/guarded_deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/queue/guarded_deque.hpp b/boost/asynchronous/queue/guarded_deque.hpp
index f595aae..f02cd6f 100755
--- a/boost/asynchronous/queue/guarded_deque.hpp
+++ b/boost/asynchronous/queue/guarded_deque.hpp
@@ -66,16 +66,16 @@ public:
     void push(JOB && j, std::size_t)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.emplace_front(std::forward<JOB>(j));
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
     void push(JOB && j)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.emplace_front(std::forward<JOB>(j));
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
@@ -83,8 +83,8 @@ public:
     void push(JOB const& j, std::size_t=0)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.push_front(j);
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
-- 
2.43.0


From 0507897cd021b9a1bd7604449df657d409c7cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 13/38] fix: threadsafe_list does not lose the wakeup of a
 consumer about to wait

---
 boost/asynchronous/queue/threadsafe_list.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/queue/threadsafe_list.hpp b/boost/asynchronous/queue/threadsafe_list.hpp
index 5442592..aeebaea 100644
--- a/boost/asynchronous/queue/threadsafe_list.hpp
+++ b/boost/asynchronous/queue/threadsafe_list.hpp
@@ -79,7 +79,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_data();
     }
     void push(JOB && j)
     {
@@ -91,7 +91,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_data();
     }
     // todo remove when type_erasure supports rvalue ref
     void push(JOB const& j, std::size_t=0)
@@ -104,7 +104,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_data();
     }
 
     JOB pop()
@@ -125,6 +125,14 @@ public:
     }
 
 private:
+    void notify_data()
+    {
+        // a consumer which found the list empty still holds the head mutex until it waits: do not notify before
+        {
+            boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        }
+        m_data_cond.notify_one();
+    }
     node* get_tail()
     {
         boost::lock_guard<boost::mutex> tail_lock(m_tail_mutex);
-- 
2.43.0


From 1eabcf34246acb89385890cf9c994f4d14c7e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 14/38] fix: circular_queue reads its size under its lock

---
 boost/asynchronous/queue/circular_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boost/asynchronous/queue/circular_queue.hpp b/boost/asynchronous/queue/circular_queue.hpp
index 676868e..8389685 100644
--- a/boost/asynchronous/queue/circular_queue.hpp
+++ b/boost/asynchronous/queue/circular_queue.hpp
@@ -45,6 +45,7 @@ public:
     std::vector<std::size_t> get_queue_size() const
     {
         std::vector<std::size_t> res;
+        lock_type lock(const_cast<this_type&>(*this).m_mutex);
         res.push_back(m_size);
         return res;
     }
-- 
2.43.0


From 4abc442ac477a3807d0e6764405924bc72c5ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 15/38] fix: lockfree queues count a job before it can be
 popped

---
 boost/asynchronous/queue/lockfree_queue.hpp      | 9 ++++++---
 boost/asynchronous/queue/lockfree_spsc_queue.hpp | 9 ++++++---
 boost/asynchronous/queue/lockfree_stack.hpp      | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/boost/asynchronous/queue/lockfree_queue.hpp b/boost/asynchronous/queue/lockfree_queue.hpp
index 18a9c94..4ff8404 100644
--- a/boost/asynchronous/queue/lockfree_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_queue.hpp
@@ -73,30 +73,33 @@ public:
     void push(JOB && j, std::size_t)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
         JOB* task = new JOB(j);
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
diff --git a/boost/asynchronous/queue/lockfree_spsc_queue.hpp b/boost/asynchronous/queue/lockfree_spsc_queue.hpp
index 48c2371..efe46a1 100644
--- a/boost/asynchronous/queue/lockfree_spsc_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_spsc_queue.hpp
@@ -58,28 +58,31 @@ public:
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(std::forward<JOB>(j)))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(std::forward<JOB>(j)))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(j))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
diff --git a/boost/asynchronous/queue/lockfree_stack.hpp b/boost/asynchronous/queue/lockfree_stack.hpp
index 9d30229..57ced87 100644
--- a/boost/asynchronous/queue/lockfree_stack.hpp
+++ b/boost/asynchronous/queue/lockfree_stack.hpp
@@ -61,30 +61,33 @@ public:
     void push(JOB && j, std::size_t)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
     void push(JOB && j)
     {
         JOB* task = new JOB(std::forward<JOB>(j));
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
         JOB* task = new JOB(j);
+        // count the job before it can be popped, otherwise the size could get negative
+        Size::increase();
         while (!m_queue.push(task))
         {
             boost::this_thread::yield();
         }
-        Size::increase();
     }
 
     JOB pop()
-- 
2.43.0


From abd04b3009b0837a669f7061678b8c20181e2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 16/38] fix: queue_converter returns the queue size instead of
 the maximum size

---
 boost/asynchronous/queue/queue_converter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/queue/queue_converter.hpp b/boost/asynchronous/queue/queue_converter.hpp
index 42cd9bc..6147929 100644
--- a/boost/asynchronous/queue/queue_converter.hpp
+++ b/boost/asynchronous/queue/queue_converter.hpp
@@ -63,7 +63,7 @@ public:
     }
     virtual std::vector<std::size_t> get_queue_size()const
     {
-        return m_from_queue->get_max_queue_size();
+        return m_from_queue->get_queue_size();
     }
     virtual std::vector<std::size_t> get_max_queue_size()const
     {
-- 
2.43.0


From 8e68514c5f30eed38e4f1995418e6fa93bb0a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 17/38] fix: stealing_multiqueue_threadpool_scheduler reports
 whether it executed a job (shadowed variable)

---
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 96077c8..99d1b51 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -233,7 +233,7 @@ public:
         try
         {
 
-            bool popped = queues[index]->try_pop(job);
+            popped = queues[index]->try_pop(job);
             if (!popped)
             {
                 // ok we have nothing to do, maybe we can steal some work?
-- 
2.43.0


From f9eb89a1af6e8e9b75cebfde7bf9ee7925f9a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 18/38] fix: an interrupted job is no longer shown as a current
 job in the diagnostics

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp      | 4 ++++
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp    | 1 +
 .../scheduler/multiqueue_threadpool_scheduler.hpp             | 4 ++++
 boost/asynchronous/scheduler/single_thread_scheduler.hpp      | 4 ++++
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp    | 4 ++++
 .../asynchronous/scheduler/stealing_threadpool_scheduler.hpp  | 4 ++++
 boost/asynchronous/scheduler/threadpool_scheduler.hpp         | 4 ++++
 7 files changed, 25 insertions(+)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index ac814ea..ea69fb0 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -394,6 +394,10 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 7fe0273..b3205d7 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -411,6 +411,7 @@ public:
             if (popped)
             {
                 (*queues)[taken_index].m_taken = false;
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
             }
         }
         catch(std::exception&)
diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 272bae5..5fb6f9c 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -282,6 +282,10 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/single_thread_scheduler.hpp b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
index 1d4d88c..9eae9a3 100644
--- a/boost/asynchronous/scheduler/single_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
@@ -228,6 +228,10 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(0,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 99d1b51..1d0a610 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -301,6 +301,10 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 8499c1c..3f13b57 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -278,6 +278,10 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index fc713e8..43da762 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -254,6 +254,10 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
-- 
2.43.0


From ed399c437470a3816286e8e90a4fdcb2305bd03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 19/38] fix: a worker terminates even if the registered
 diagnostics functor throws

---
 .../scheduler/detail/scheduler_helpers.hpp            | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/scheduler_helpers.hpp b/boost/asynchronous/scheduler/detail/scheduler_helpers.hpp
index 4061ec8..0b2403e 100644
--- a/boost/asynchronous/scheduler/detail/scheduler_helpers.hpp
+++ b/boost/asynchronous/scheduler/detail/scheduler_helpers.hpp
@@ -37,8 +37,15 @@ struct default_termination_task: public Diag
 
     void operator()()const
     {
-        if (m_fct)
-            m_fct();
+        try
+        {
+            if (m_fct)
+                m_fct();
+        }
+        catch(std::exception&)
+        {
+            // the worker has to terminate even if the functor failed
+        }
         throw boost::asynchronous::detail::shutdown_exception();
     }
     std::function<void()> m_fct;
-- 
2.43.0


From b1b4b685a6181f83a4fb5188319d172bc2f62843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 20/38] fix: multiple_thread_scheduler::interruptible_post
 finds the queue of the servant like post

---
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index b3205d7..69c4b0f 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -296,12 +296,13 @@ public:
         boost::asynchronous::job_traits<typename queue_type::job_type>::set_posted_time(job);
         boost::asynchronous::interruptible_job<typename queue_type::job_type,this_type>
                 ijob(std::move(job),wpromise,state);
-        if (prio >= m_queues->size())
+        std::size_t servant_index = (prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[prio].m_queues->push(std::move(ijob),prio);
+        (*m_queues)[servant_index].m_queues->push(std::move(ijob),prio % 100000);
 
         std::future<boost::thread*> fu = wpromise->get_future();
         boost::asynchronous::interrupt_helper interruptible(std::move(fu),state);
-- 
2.43.0


From 1f32be76d2bda136f93e56ebbceb8d9c6a9220ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 21/38] fix: no division by zero if a pool has less workers
 than threads without load saving

---
 .../asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp  | 2 +-
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp      | 2 +-
 boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp  | 2 +-
 boost/asynchronous/scheduler/threadpool_scheduler.hpp           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 5fb6f9c..dd9e541 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -100,7 +100,7 @@ public:
         std::size_t load_thread_interval = 0;
         if (no_load_save_threads > 0)
         {
-            load_thread_interval = m_number_of_workers / no_load_save_threads;
+            load_thread_interval = (m_number_of_workers > no_load_save_threads)?(m_number_of_workers / no_load_save_threads):1;
         }
         for (size_t i = 0; i< m_number_of_workers;++i)
         {
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 1d0a610..c652289 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -105,7 +105,7 @@ public:
         std::size_t load_thread_interval = 0;
         if (no_load_save_threads > 0)
         {
-            load_thread_interval = m_number_of_workers / no_load_save_threads;
+            load_thread_interval = (m_number_of_workers > no_load_save_threads)?(m_number_of_workers / no_load_save_threads):1;
         }
         for (size_t i = 0; i< number_of_workers;++i)
         {
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 3f13b57..e6d9dcc 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -101,7 +101,7 @@ public:
         std::size_t load_thread_interval = 0;
         if (no_load_save_threads > 0)
         {
-            load_thread_interval = m_number_of_workers / no_load_save_threads;
+            load_thread_interval = (m_number_of_workers > no_load_save_threads)?(m_number_of_workers / no_load_save_threads):1;
         }
         for (size_t i = 0; i< number_of_workers;++i)
         {
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index 43da762..138a5c3 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -90,7 +90,7 @@ public:
         std::size_t load_thread_interval = 0;
         if (no_load_save_threads > 0)
         {
-            load_thread_interval = m_number_of_workers / no_load_save_threads;
+            load_thread_interval = (m_number_of_workers > no_load_save_threads)?(m_number_of_workers / no_load_save_threads):1;
         }
         for (size_t i = 0; i< m_number_of_workers;++i)
         {
-- 
2.43.0


From 81330696e2d2c918b748f6c29dbaf9d35cd76d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 22/38] fix: execute_in_all_threads delivers the exception of
 the callable through the futures

---
 .../scheduler/detail/execute_in_all_threads.hpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
index 083a7ca..81fe077 100644
--- a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
+++ b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
@@ -25,7 +25,15 @@ struct execute_in_all_threads_task
     {}
     void operator()()
     {
-        to_call_();
+        try
+        {
+            to_call_();
+        }
+        catch(...)
+        {
+            done_promise_->set_exception(std::current_exception());
+            return;
+        }
         done_promise_->set_value();
     }
     boost::asynchronous::any_callable to_call_;
-- 
2.43.0


From 4e5c42fa927322eface7a00858d7fdcf6b65e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 23/38] fix: BOOST_ASYNC_POST_MEMBER adds the servant index of
 a multiple_thread_scheduler only once

---
 boost/asynchronous/servant_proxy.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 939eae8..9482f34 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -63,9 +63,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = 100000 * this->m_offset_id;                                                                             \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
-        (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
+        (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),0);   \
     }
 #endif
 
@@ -74,9 +73,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                      \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
-        (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
+        (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),prio);\
     }
 
 #define BOOST_ASYNC_POST_MEMBER(...)                                                                            \
@@ -88,11 +86,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t prio = 100000 * this->m_offset_id;                                                                                      \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
-        this->post(std::move(a),prio);                                                                                                      \
+        this->post(std::move(a),0);                                                                                                         \
     }
 #endif
 
@@ -101,11 +98,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                                  \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
-        this->post(std::move(a),p);                                                                                                         \
+        this->post(std::move(a),prio);                                                                                                      \
     }
 
 #define BOOST_ASYNC_POST_MEMBER_LOG(...)                                                                        \
-- 
2.43.0


From 944709cd7d544c453ec59d7bbca4ed6dd4156a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 24/38] fix: a servant of a multiple_thread_scheduler is
 destroyed by its own queue

---
 boost/asynchronous/servant_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 9482f34..f16c8f4 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -605,7 +605,8 @@ public:
             servant_deleter n(std::move(m_servant));
             typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(std::move(n));
             a.set_name(ServantProxy::get_dtor_name());
-            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio());
+            // in the queue of our servant, like its other calls
+            this->post(std::move(a),ServantProxy::get_dtor_prio());
             m_servant.reset();
         }
         m_proxy.reset();
-- 
2.43.0


From 15cdb45edc3a506e10dd846ddfede4b5127c004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 25/38] fix: dynamic_servant_proxy_cast keeps the servant index
 of a multiple_thread_scheduler

---
 boost/asynchronous/servant_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index f16c8f4..667f202 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -478,7 +478,7 @@ protected:
     servant_proxy(AnotherProxy p, typename std::enable_if<boost::asynchronous::has_servant_type<AnotherProxy>::value>::type* = 0)BOOST_NOEXCEPT
         : m_proxy(p.m_proxy)
         , m_servant(std::dynamic_pointer_cast<typename AnotherProxy::servant_type>(p.m_servant))
-        , m_offset_id(0)
+        , m_offset_id(p.m_offset_id)
     {
     }
 public:
-- 
2.43.0


From 03bcff6d26e172778801e8a73f404da5609dfe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 26/38] fix: BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK calls the
 callback only once if the callback throws

---
 boost/asynchronous/servant_proxy.hpp | 48 ++++++++++++++++++----------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 667f202..0688ffc 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -235,8 +235,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         using servant_return = typename workaround_gcc::servant_return;                                                                             \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{ cb_func(boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...)));}             \
-                                     catch(...){cb_func(boost::asynchronous::expected<servant_return>(std::current_exception()));}                  \
+                                    {auto call = [&]()->boost::asynchronous::expected<servant_return>                                               \
+                                     {try{return boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...));}               \
+                                      catch(...){return boost::asynchronous::expected<servant_return>(std::current_exception());}};                 \
+                                     cb_func(call());                                                                                               \
                                     },std::move(args)...),"",prio);                                                                                 \
     }                                                                                                                                               \
     template <typename F,typename... Args>                                                                                                          \
@@ -247,8 +249,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         std::size_t prio = 100000 * this->m_offset_id;                                                                                              \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{servant->funcname(std::move(as)...); cb_func(boost::asynchronous::expected<void>());}                      \
-                                     catch(...){cb_func(boost::asynchronous::expected<void>(std::current_exception()));}                            \
+                                    {auto call = [&]()->boost::asynchronous::expected<void>                                                         \
+                                     {try{servant->funcname(std::move(as)...); return boost::asynchronous::expected<void>();}                       \
+                                      catch(...){return boost::asynchronous::expected<void>(std::current_exception());}};                           \
+                                     cb_func(call());                                                                                               \
                                     },std::move(args)...),"",prio);                                                                                 \
     }
 
@@ -264,8 +268,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         using servant_return = typename workaround_gcc::servant_return;                                                                             \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{ cb_func(boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...)));}             \
-                                     catch(...){cb_func(boost::asynchronous::expected<servant_return>(std::current_exception()));}                  \
+                                    {auto call = [&]()->boost::asynchronous::expected<servant_return>                                               \
+                                     {try{return boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...));}               \
+                                      catch(...){return boost::asynchronous::expected<servant_return>(std::current_exception());}};                 \
+                                     cb_func(call());                                                                                               \
                                     },std::move(args)...),"",p);                                                                                    \
     }                                                                                                                                               \
     template <typename F,typename... Args>                                                                                                          \
@@ -276,8 +282,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         std::size_t p = prio + 100000 * this->m_offset_id;                                                                                          \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{servant->funcname(std::move(as)...); cb_func(boost::asynchronous::expected<void>());}                      \
-                                     catch(...){cb_func(boost::asynchronous::expected<void>(std::current_exception()));}                            \
+                                    {auto call = [&]()->boost::asynchronous::expected<void>                                                         \
+                                     {try{servant->funcname(std::move(as)...); return boost::asynchronous::expected<void>();}                       \
+                                      catch(...){return boost::asynchronous::expected<void>(std::current_exception());}};                           \
+                                     cb_func(call());                                                                                               \
                                     },std::move(args)...),"",p);                                                                                    \
     }
 
@@ -302,8 +310,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         using servant_return = typename workaround_gcc::servant_return;                                                                             \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{ cb_func(boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...)));}             \
-                                     catch(...){cb_func(boost::asynchronous::expected<servant_return>(std::current_exception()));}                  \
+                                    {auto call = [&]()->boost::asynchronous::expected<servant_return>                                               \
+                                     {try{return boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...));}               \
+                                      catch(...){return boost::asynchronous::expected<servant_return>(std::current_exception());}};                 \
+                                     cb_func(call());                                                                                               \
                                     },std::move(args)...),taskname,prio);                                                                           \
     }                                                                                                                                               \
     template <typename F,typename... Args>                                                                                                          \
@@ -314,8 +324,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         std::size_t prio = 100000 * this->m_offset_id;                                                                                              \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{servant->funcname(std::move(as)...); cb_func(boost::asynchronous::expected<void>());}                      \
-                                     catch(...){cb_func(boost::asynchronous::expected<void>(std::current_exception()));}                            \
+                                    {auto call = [&]()->boost::asynchronous::expected<void>                                                         \
+                                     {try{servant->funcname(std::move(as)...); return boost::asynchronous::expected<void>();}                       \
+                                      catch(...){return boost::asynchronous::expected<void>(std::current_exception());}};                           \
+                                     cb_func(call());                                                                                               \
                                     },std::move(args)...),taskname,prio);                                                                           \
     }
 #endif
@@ -331,8 +343,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         using servant_return = typename workaround_gcc::servant_return;                                                                             \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{ cb_func(boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...)));}             \
-                                     catch(...){cb_func(boost::asynchronous::expected<servant_return>(std::current_exception()));}                  \
+                                    {auto call = [&]()->boost::asynchronous::expected<servant_return>                                               \
+                                     {try{return boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...));}               \
+                                      catch(...){return boost::asynchronous::expected<servant_return>(std::current_exception());}};                 \
+                                     cb_func(call());                                                                                               \
                                     },std::move(args)...),taskname,p);                                                                              \
     }                                                                                                                                               \
     template <typename F,typename... Args>                                                                                                          \
@@ -343,8 +357,10 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         std::size_t p = prio + 100000 * this->m_offset_id;                                                                                          \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{servant->funcname(std::move(as)...); cb_func(boost::asynchronous::expected<void>());}                      \
-                                     catch(...){cb_func(boost::asynchronous::expected<void>(std::current_exception()));}                            \
+                                    {auto call = [&]()->boost::asynchronous::expected<void>                                                         \
+                                     {try{servant->funcname(std::move(as)...); return boost::asynchronous::expected<void>();}                       \
+                                      catch(...){return boost::asynchronous::expected<void>(std::current_exception());}};                           \
+                                     cb_func(call());                                                                                               \
                                     },std::move(args)...),taskname,p);                                                                              \
     }
 
-- 
2.43.0


From bd6274ce604a40a2764cc518f59c29e9da56e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 27/38] fix: parallel_search, parallel_search_n,
 parallel_find_end: the subtasks were given a moved-from predicate

---
 boost/asynchronous/algorithm/parallel_find_end.hpp | 2 +-
 boost/asynchronous/algorithm/parallel_search.hpp   | 2 +-
 boost/asynchronous/algorithm/parallel_search_n.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index eb4e8f2..79a3443 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -62,7 +62,7 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
                 auto end1 = end1_;
                 auto beg2 = end2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 6d9d8b1..ea366f0 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -62,7 +62,7 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
                 auto end1 = end1_;
                 auto beg2 = end2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
diff --git a/boost/asynchronous/algorithm/parallel_search_n.hpp b/boost/asynchronous/algorithm/parallel_search_n.hpp
index 78f3f9b..7cac7a0 100644
--- a/boost/asynchronous/algorithm/parallel_search_n.hpp
+++ b/boost/asynchronous/algorithm/parallel_search_n.hpp
@@ -57,7 +57,7 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                 auto end1 = end1_;
                 auto count = count_;
                 auto value = value_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,count,value,func]
-- 
2.43.0


From eb4fa0d459e8f23c45b6a1ff98cc65abbac135df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 28/38] fix: parallel_search, parallel_search_n,
 parallel_find_end: search the overlap of two parts for the whole pattern and
 only inside the range

---
 boost/asynchronous/algorithm/parallel_find_end.hpp | 9 ++++++---
 boost/asynchronous/algorithm/parallel_search.hpp   | 9 ++++++---
 boost/asynchronous/algorithm/parallel_search_n.hpp | 7 +++++--
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 79a3443..591a8f0 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -60,7 +60,7 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
                 auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
@@ -84,8 +84,11 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
                                         auto itend = it;
                                         auto dist2 = std::distance(beg2,end2);
 
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        // but not outside of the searched range
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > dist2)
+                                            std::advance(itbeg, dist1 - dist2);
+                                        boost::asynchronous::detail::safe_advance(itend, dist2, end1);
                                         auto itoverlap = std::find_end(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index ea366f0..07bb44d 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -60,7 +60,7 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
                 auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
@@ -83,8 +83,11 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
                                         auto itbeg = beg1;
                                         auto itend = it;
                                         auto dist2 = std::distance(beg2,end2);
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        // but not outside of the searched range
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > dist2)
+                                            std::advance(itbeg, dist1 - dist2);
+                                        boost::asynchronous::detail::safe_advance(itend, dist2, end1);
                                         auto itoverlap = std::search(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search_n.hpp b/boost/asynchronous/algorithm/parallel_search_n.hpp
index 7cac7a0..1aa8ce0 100644
--- a/boost/asynchronous/algorithm/parallel_search_n.hpp
+++ b/boost/asynchronous/algorithm/parallel_search_n.hpp
@@ -77,8 +77,11 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                                         // check in overlap region
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        std::advance(itbeg, std::distance(beg1,it) - count);
-                                        std::advance(itend, count);
+                                        // but not outside of the searched range
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > static_cast<decltype(dist1)>(count))
+                                            std::advance(itbeg, dist1 - static_cast<decltype(dist1)>(count));
+                                        boost::asynchronous::detail::safe_advance(itend, static_cast<decltype(dist1)>(count), end1);
                                         auto itoverlap = std::search_n(itbeg,itend,count,value,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From 4c60ba85906c75600578c295ad84b627655bf7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 29/38] fix: parallel inclusive/exclusive scans: only correct
 if T() was neutral for the operation (products were all 0)

---
 .../algorithm/parallel_exclusive_scan.hpp     | 14 +++++++---
 .../algorithm/parallel_inclusive_scan.hpp     | 28 +++++++++++++------
 .../parallel_transform_exclusive_scan.hpp     |  7 +++--
 .../parallel_transform_inclusive_scan.hpp     |  7 +++--
 4 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
index 3c4710e..8864769 100644
--- a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
@@ -25,8 +25,11 @@ parallel_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
 {
     auto reduce = [f](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not necessarily neutral for f => start with the first element
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -59,8 +62,11 @@ parallel_exclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not necessarily neutral for f => start with the first element
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
diff --git a/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
index a09e4a2..194890b 100644
--- a/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
@@ -28,8 +28,11 @@ parallel_inclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
 {
     auto reduce = [f](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not necessarily neutral for f => start with the first element
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -62,8 +65,11 @@ parallel_inclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not necessarily neutral for f => start with the first element
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -96,8 +102,11 @@ parallel_inclusive_scan(Range&& range,T init,Func f,long cutoff,
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not necessarily neutral for f => start with the first element
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -131,8 +140,11 @@ parallel_inclusive_scan(Range range,T init,Func f,long cutoff,
     auto reduce = [f](decltype(boost::begin(std::declval<typename Range::return_type>())) beg,
                       decltype(boost::begin(std::declval<typename Range::return_type>())) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not necessarily neutral for f => start with the first element
+        if (beg == end)
+            return T();
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
diff --git a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
index 8c6682c..104f7ac 100644
--- a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
@@ -26,8 +26,11 @@ parallel_transform_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T
 {
     auto reduce = [f,t](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not necessarily neutral for f => start with the first element
+        if (beg == end)
+            return T();
+        T r = t(*beg);
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , t(*beg));
         }
diff --git a/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
index 1d1d3db..3a685fc 100644
--- a/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
@@ -26,8 +26,11 @@ parallel_transform_inclusive_scan(Iterator beg, Iterator end, OutIterator out, T
 {
     auto reduce = [f,t](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not necessarily neutral for f => start with the first element
+        if (beg == end)
+            return T();
+        T r = t(*beg);
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , t(*beg));
         }
-- 
2.43.0


From 5142ca723adf41597cf921ecb3ed9161f60a4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 30/38] fix: parallel exclusive scans: wrong result when
 scanning in place

---
 boost/asynchronous/algorithm/parallel_exclusive_scan.hpp  | 8 ++++++--
 .../algorithm/parallel_transform_exclusive_scan.hpp       | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
index 8864769..3ce5fa7 100644
--- a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
@@ -39,8 +39,10 @@ parallel_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
     {
       for (;beg != end; ++beg)
       {
+          // read before writing: out can be beg
+          T next = f(init , *beg);
           *out++ = init;
-          init = f(init , *beg);
+          init = std::move(next);
       };
     };
 
@@ -76,8 +78,10 @@ parallel_exclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
     {
         for (;beg != end; ++beg)
         {
+            // read before writing: out can be beg
+            T next = f(init , *beg);
             *out++ = init;
-            init = f(init , *beg);
+            init = std::move(next);
         };
     };
 
diff --git a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
index 104f7ac..fec6b8c 100644
--- a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
@@ -40,8 +40,10 @@ parallel_transform_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T
     {
       for (;beg != end; ++beg)
       {
+          // read before writing: out can be beg
+          T next = f(init , t(*beg));
           *out++ = init;
-          init = f(init , t(*beg));
+          init = std::move(next);
       };
     };
 
-- 
2.43.0


From cf6c42b1cf410e4362562b4224cbe1d8a8d2dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 31/38] fix: parallel_partial_sum: combined the first element
 with T(), which is not neutral for every operation

---
 .../algorithm/parallel_partial_sum.hpp        | 84 +++++++++++++++++--
 1 file changed, 79 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_partial_sum.hpp b/boost/asynchronous/algorithm/parallel_partial_sum.hpp
index 7932908..c995047 100644
--- a/boost/asynchronous/algorithm/parallel_partial_sum.hpp
+++ b/boost/asynchronous/algorithm/parallel_partial_sum.hpp
@@ -11,12 +11,60 @@
 #define BOOST_ASYNCHRONOUS_PARALLEL_PARTIAL_SUM_HPP
 
 #include <type_traits>
+#include <boost/optional.hpp>
 #include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
+#include <boost/asynchronous/algorithm/parallel_scan.hpp>
+#include <boost/asynchronous/algorithm/then.hpp>
 
 namespace boost { namespace asynchronous
 {
 
 // version with iterators
+namespace detail
+{
+// A partial sum has no initial value, and a default-constructed element is not necessarily neutral for the operation
+// => sums are optional, the one before the first element is empty.
+template <class T, class Func>
+struct partial_sum_combine
+{
+    boost::optional<T> operator()(boost::optional<T> const& a, boost::optional<T> const& b)
+    {
+        if (!a)
+            return b;
+        if (!b)
+            return a;
+        return boost::optional<T>(f_(*a,*b));
+    }
+    Func f_;
+};
+template <class Iterator, class T, class Func>
+struct partial_sum_reduce
+{
+    boost::optional<T> operator()(Iterator beg, Iterator end)
+    {
+        boost::optional<T> r;
+        for (;beg != end; ++beg)
+        {
+            r = r ? T(f_(*r,*beg)) : T(*beg);
+        }
+        return r;
+    }
+    Func f_;
+};
+template <class Iterator, class OutIterator, class T, class Func>
+struct partial_sum_scan
+{
+    void operator()(Iterator beg, Iterator end, OutIterator out, boost::optional<T> init)
+    {
+        for (;beg != end; ++beg)
+        {
+            init = init ? T(f_(*init,*beg)) : T(*beg);
+            *out++ = *init;
+        }
+    }
+    Func f_;
+};
+}
 template <class Iterator, class OutIterator, class Func,class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
 boost::asynchronous::detail::callback_continuation<typename std::iterator_traits<Iterator>::value_type,Job>
 parallel_partial_sum(Iterator beg, Iterator end, OutIterator out, Func f,long cutoff,
@@ -27,7 +75,19 @@ parallel_partial_sum(Iterator beg, Iterator end, OutIterator out, Func f,long cu
 #endif
 {
     using element_type = typename std::iterator_traits<Iterator>::value_type;
-    return boost::asynchronous::parallel_inclusive_scan<Iterator,OutIterator,element_type,Func,Job>(beg,end,out,element_type(),std::move(f),cutoff,task_name,prio);
+    using sum_type = boost::optional<element_type>;
+    using combine_type = boost::asynchronous::detail::partial_sum_combine<element_type,Func>;
+    using reduce_type = boost::asynchronous::detail::partial_sum_reduce<Iterator,element_type,Func>;
+    using scan_type = boost::asynchronous::detail::partial_sum_scan<Iterator,OutIterator,element_type,Func>;
+    return boost::asynchronous::then_job<Job>(
+                boost::asynchronous::parallel_scan<Iterator,OutIterator,sum_type,reduce_type,combine_type,scan_type,Job>
+                    (beg,end,out,sum_type(),reduce_type{f},combine_type{f},scan_type{f},cutoff,task_name,prio),
+                [](boost::asynchronous::expected<sum_type> res)
+                {
+                    sum_type sum = res.get();
+                    return sum ? *sum : element_type();
+                },
+                task_name);
 }
 
 // version for moved ranges
@@ -42,8 +102,12 @@ parallel_partial_sum(Range&& range,OutRange&& out_range,Func f,long cutoff,
 #endif
 {
     using element_type = typename std::remove_const<typename std::remove_reference<decltype(*boost::begin(range))>::type>::type;
-    return boost::asynchronous::parallel_inclusive_scan<Range,OutRange,element_type,Func,Job>
-            (std::forward<Range>(range),std::forward<OutRange>(out_range),element_type(),std::move(f),cutoff,task_name,prio);
+    using sum_type = boost::optional<element_type>;
+    using combine_type = boost::asynchronous::detail::partial_sum_combine<element_type,Func>;
+    using reduce_type = boost::asynchronous::detail::partial_sum_reduce<decltype(boost::begin(range)),element_type,Func>;
+    using scan_type = boost::asynchronous::detail::partial_sum_scan<decltype(boost::begin(range)),decltype(boost::begin(out_range)),element_type,Func>;
+    return boost::asynchronous::parallel_scan<Range,OutRange,sum_type,reduce_type,combine_type,scan_type,Job>
+            (std::forward<Range>(range),std::forward<OutRange>(out_range),sum_type(),reduce_type{f},combine_type{f},scan_type{f},cutoff,task_name,prio);
 }
 
 // version for a single moved range (in/out) => will return the range as continuation
@@ -58,7 +122,12 @@ parallel_partial_sum(Range&& range,Func f,long cutoff,
 #endif
 {
     using element_type = typename std::remove_const<typename std::remove_reference<decltype(*boost::begin(range))>::type>::type;
-    return boost::asynchronous::parallel_inclusive_scan<Range,element_type,Func,Job>(std::forward<Range>(range),element_type(),std::move(f),cutoff,task_name,prio);
+    using sum_type = boost::optional<element_type>;
+    using combine_type = boost::asynchronous::detail::partial_sum_combine<element_type,Func>;
+    using reduce_type = boost::asynchronous::detail::partial_sum_reduce<decltype(boost::begin(range)),element_type,Func>;
+    using scan_type = boost::asynchronous::detail::partial_sum_scan<decltype(boost::begin(range)),decltype(boost::begin(range)),element_type,Func>;
+    return boost::asynchronous::parallel_scan<Range,sum_type,reduce_type,combine_type,scan_type,Job>
+            (std::forward<Range>(range),sum_type(),reduce_type{f},combine_type{f},scan_type{f},cutoff,task_name,prio);
 }
 
 // version for ranges given as continuation => will return the range as continuation
@@ -73,7 +142,12 @@ parallel_partial_sum(Range range,Func f,long cutoff,
 #endif
 {
     using element_type = typename std::remove_const<typename std::remove_reference<decltype(*boost::begin(std::declval<typename Range::return_type>()))>::type>::type;
-    return boost::asynchronous::parallel_inclusive_scan<Range,element_type,Func,Job>(std::move(range),element_type(),std::move(f),cutoff,task_name,prio);
+    using sum_type = boost::optional<element_type>;
+    using combine_type = boost::asynchronous::detail::partial_sum_combine<element_type,Func>;
+    using reduce_type = boost::asynchronous::detail::partial_sum_reduce<decltype(boost::begin(std::declval<typename Range::return_type>())),element_type,Func>;
+    using scan_type = boost::asynchronous::detail::partial_sum_scan<decltype(boost::begin(std::declval<typename Range::return_type>())),decltype(std::declval<typename Range::return_type>().begin()),element_type,Func>;
+    return boost::asynchronous::parallel_scan<Range,sum_type,reduce_type,combine_type,scan_type,Job>
+            (std::move(range),sum_type(),reduce_type{f},combine_type{f},scan_type{f},cutoff,task_name,prio);
 }
 
 }}
-- 
2.43.0


From 21df23f4f6b9578a23ae95c27f903c6000b61287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 32/38] fix: parallel_stable_sort: reversing a range in reverse
 order changed the order of equivalent elements

---
 .../algorithm/detail/parallel_sort_helper.hpp    | 15 +++++++++++++++
 boost/asynchronous/algorithm/parallel_sort.hpp   | 16 ++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp b/boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp
index 25044c3..cfd87d4 100644
--- a/boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp
+++ b/boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp
@@ -10,6 +10,7 @@
 #define BOOST_ASYNCHRONOUS_PARALLEL_SORT_HELPER_HPP
 
 #include <algorithm>
+#include <type_traits>
 #ifdef BOOST_ASYNCHRONOUS_USE_BOOST_SPREADSORT
 #include <boost/sort/spreadsort/spreadsort.hpp>
 #endif
@@ -80,6 +81,20 @@ struct std_stable_sort
     }
 };
 
+// reversing a range which is sorted in reverse order would change the order of equivalent elements
+// => this shortcut is not for stable sorts
+namespace detail
+{
+template <class Sort>
+struct can_reverse : public std::true_type {};
+template <>
+struct can_reverse<boost::asynchronous::std_stable_sort> : public std::false_type {};
+#ifdef BOOST_ASYNCHRONOUS_USE_BOOST_SORT
+template <>
+struct can_reverse<boost::asynchronous::boost_stable_sort> : public std::false_type {};
+#endif
+}
+
 // version for moved ranges => will return the range as continuation
 namespace detail
 {
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index cc5aee0..39c5cab 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -71,7 +71,8 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((it == end)&&(depth %2 == 0))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (boost::asynchronous::detail::can_reverse<Sort>::value &&
+                    std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -189,7 +190,8 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((depth_ == 0) && (end_ == it))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg_,it,boost::asynchronous::detail::reverse_sorted<Func>(func_)))
+                if (boost::asynchronous::detail::can_reverse<Sort>::value &&
+                    std::is_sorted(beg_,it,boost::asynchronous::detail::reverse_sorted<Func>(func_)))
                 {
                     std::reverse(beg_,end_);
                 }
@@ -241,7 +243,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
                             try
                             {
                                 bool sorted = std::get<0>(res).get();
-                                if (sorted)
+                                if (sorted && boost::asynchronous::detail::can_reverse<Sort>::value)
                                 {
                                     // reverse sorted
                                     auto cont3 = boost::asynchronous::parallel_reverse<Iterator,Job>(beg,end,cutoff,task_name+"_reverse",prio);
@@ -558,7 +560,8 @@ struct parallel_sort_range_move_helper_serializable
             if (it == end)
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (boost::asynchronous::detail::can_reverse<Sort>::value &&
+                    std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -761,7 +764,8 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
         if (it == end)
         {
             // if already reverse sorted, only reverse
-            if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+            if (boost::asynchronous::detail::can_reverse<Sort>::value &&
+                std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
             {
                 std::reverse(beg,end);
             }
@@ -891,7 +895,7 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
                             try
                             {
                                 bool sorted = std::get<0>(res).get();
-                                if (sorted)
+                                if (sorted && boost::asynchronous::detail::can_reverse<Sort>::value)
                                 {
                                     // reverse sorted
                                     auto cont3 = boost::asynchronous::parallel_reverse<decltype(boost::begin(*range_)),Job>
-- 
2.43.0


From c09f90045ff788b0ba85f7c852e4e8f8233f8908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 33/38] fix: parallel_merge: not stable, and did not compile
 for different iterator types

---
 .../asynchronous/algorithm/parallel_merge.hpp | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_merge.hpp b/boost/asynchronous/algorithm/parallel_merge.hpp
index 083ea32..2bd491a 100644
--- a/boost/asynchronous/algorithm/parallel_merge.hpp
+++ b/boost/asynchronous/algorithm/parallel_merge.hpp
@@ -63,7 +63,7 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg2_,end2_,beg1_,end1_,out_,std::move(task_res));
+                    helper2(beg1_,end1_,beg2_,end2_,out_,std::move(task_res));
                 }
             }
         }
@@ -80,6 +80,24 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
         auto it3 = out + ((it1 - beg1) + (it2 - beg2));
         // TODO move?
         *it3 = *it1;
+        split(beg1,it1,it1+1,end1,beg2,it2,it2,end2,out,it3+1,std::move(task_res));
+    }
+    // the second range is longer: its middle goes after all equivalent elements of the first range (merge is stable)
+    template <class It1, class It2, class OutIt>
+    void helper2(It1 beg1, It1 end1, It2 beg2, It2 end2, OutIt out,boost::asynchronous::continuation_result<void> task_res)const
+    {
+        auto it2 = (beg2+ (end2 - beg2)/2);
+        auto it1 = std::upper_bound(beg1,end1, *it2,func_);
+        auto it3 = out + ((it1 - beg1) + (it2 - beg2));
+        // TODO move?
+        *it3 = *it2;
+        split(beg1,it1,it1,end1,beg2,it2,it2+1,end2,out,it3+1,std::move(task_res));
+    }
+    // merges [beg1,mid1) with [beg2,mid2) into out and [next1,end1) with [next2,end2) into out2
+    template <class It1, class It2, class OutIt>
+    void split(It1 beg1, It1 mid1, It1 next1, It1 end1, It2 beg2, It2 mid2, It2 next2, It2 end2, OutIt out, OutIt out2,
+               boost::asynchronous::continuation_result<void> task_res)const
+    {
         boost::asynchronous::create_callback_continuation_job<Job>(
                     // called when subtasks are done, set our result
                     [task_res](std::tuple<boost::asynchronous::expected<void>,boost::asynchronous::expected<void> > res) mutable
@@ -98,9 +116,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                     },
                     // recursive tasks
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (beg1,it1,beg2,it2,out,func_,cutoff_,this->get_name(),prio_),
+                        (beg1,mid1,beg2,mid2,out,func_,cutoff_,this->get_name(),prio_),
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (it1+1,end1,it2,end2,it3+1,func_,cutoff_,this->get_name(),prio_)
+                        (next1,end1,next2,end2,out2,func_,cutoff_,this->get_name(),prio_)
         );
     }
 
-- 
2.43.0


From 9a68b5748bc3ae46ce99633a7277a529b9ef36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 34/38] fix: parallel_partial_sort: read an empty range or did
 not end if middle is the begin of the range

---
 boost/asynchronous/algorithm/parallel_partial_sort.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_partial_sort.hpp b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
index 4649ac0..a7d5540 100644
--- a/boost/asynchronous/algorithm/parallel_partial_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
@@ -54,6 +54,12 @@ struct parallel_partial_sort_helper: public boost::asynchronous::continuation_ta
             auto size_all_partitions = size_all_partitions_;
             auto original_size = original_size_;
 
+            // nothing to sort
+            if (beg == middle)
+            {
+                task_res.set_value();
+                return;
+            }
             // if we do not make enough progress, switch to sort
             if (size_all_partitions > (long)(4*original_size))
             {
-- 
2.43.0


From 6a9f83ecb0b26d7f665adbef90f12a9e882cc694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 35/38] fix: parallel_partition: wrong result for ranges of
 more than 2^31 elements

---
 boost/asynchronous/algorithm/parallel_partition.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index 9ca08dd..e587b3a 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -186,12 +186,12 @@ private:
     std::pair<std::list<std::pair<iterator, iterator>>, std::list<std::pair<iterator, iterator>>> part_parallel()
     {
         iterator lbs = m_sd->m_left, rbs = m_sd->m_right, lbe = m_sd->m_left, rbe = m_sd->m_right;
-        int mlstart = 0, mrstart = 0;
-        int myrtrue = 0;
+        int64_t mlstart = 0, mrstart = 0;
+        int64_t myrtrue = 0;
 
         while(m_sd->m_size > 0)
         {
-            int mysize = m_sd->m_size.fetch_sub(m_sd->m_BS);
+            int64_t mysize = m_sd->m_size.fetch_sub(m_sd->m_BS);
             if (mysize <= 0) break;
             if (mysize > m_sd->m_BS) mysize = m_sd->m_BS;
 
-- 
2.43.0


From 8e8595f8aa914739f20903d4c77b128cda23eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:30 +0000
Subject: [PATCH 36/38] fix: parallel_merge: an exception of the comparison was
 reported through a moved-from result

---
 boost/asynchronous/algorithm/parallel_merge.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_merge.hpp b/boost/asynchronous/algorithm/parallel_merge.hpp
index 2bd491a..af0bcc4 100644
--- a/boost/asynchronous/algorithm/parallel_merge.hpp
+++ b/boost/asynchronous/algorithm/parallel_merge.hpp
@@ -54,7 +54,7 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg1_,end1_,beg2_,end2_,out_,std::move(task_res));
+                    helper(beg1_,end1_,beg2_,end2_,out_,task_res);
                 }
                 else
                 {
@@ -63,7 +63,7 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper2(beg1_,end1_,beg2_,end2_,out_,std::move(task_res));
+                    helper2(beg1_,end1_,beg2_,end2_,out_,task_res);
                 }
             }
         }
-- 
2.43.0


From 106057bfaa5dbc49587bb158bcd5533e20804114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 37/38] fix: parallel_nth_element: wrong element if the
 partition point was the nth position

---
 boost/asynchronous/algorithm/parallel_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_nth_element.hpp b/boost/asynchronous/algorithm/parallel_nth_element.hpp
index 4b4a1cc..fbff88f 100644
--- a/boost/asynchronous/algorithm/parallel_nth_element.hpp
+++ b/boost/asynchronous/algorithm/parallel_nth_element.hpp
@@ -106,7 +106,7 @@ struct parallel_nth_element_helper: public boost::asynchronous::continuation_tas
                             //std::cout << "done parallel_partition: " << res-beg << " , " << nth-beg << " , " << size_all_partitions << std::endl;
 
                             auto dist_beg_res = std::distance(beg,res);
-                            if (dist_beg_res >= std::distance(beg,nth))
+                            if (dist_beg_res > std::distance(beg,nth))
                             {
                                 // re-iterate on first part
                                 //std::cout << "1st part: " << res-beg << std::endl;
-- 
2.43.0


From 800ee2f5bb53dc85f584af3f89daf55e4e0ae6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 38/38] fix: interruptible_post_callback for continuations had
 its default arguments in the wrong branch

---
 boost/asynchronous/post.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 8730b00..acace5b 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -1503,9 +1503,9 @@ auto interruptible_post_callback(S1 const& scheduler,F1 func,S2 const& weak_cb_s
 auto interruptible_post_callback(S1 const& scheduler,F1 const& func,S2 const& weak_cb_scheduler,F2 const& cb_func,
 #endif
 #ifdef BOOST_ASYNCHRONOUS_REQUIRE_ALL_ARGUMENTS
-                   const std::string& task_name="", std::size_t post_prio=0, std::size_t cb_prio=0)
-#else
                    const std::string& task_name, std::size_t post_prio, std::size_t cb_prio)
+#else
+                   const std::string& task_name="", std::size_t post_prio=0, std::size_t cb_prio=0)
 #endif
     -> typename std::enable_if< boost::asynchronous::detail::has_is_continuation_task<decltype(func())>::value,boost::asynchronous::any_interruptible >::type
 {
-- 
2.43.0

