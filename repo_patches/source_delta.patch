From 1568c4371d84c32c4cfea2707994accac0b83691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 01/98] fix: box distances for rays through edges and corners

A ray that hits an edge or corner hits several faces at once (or, by
rounding, none), so the box was reported as never hit or the particle as
outside of it.
---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx | 223 +++---------------
 1 file changed, 30 insertions(+), 193 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index 6000455..b4ac71c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -1,6 +1,7 @@
 
+#include <algorithm>
 #include <cmath>
-#include <vector>
+#include <limits>
 
 #include "PROPOSAL/Constants.h"
 #include "PROPOSAL/Logging.h"
@@ -76,207 +77,43 @@ std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const
     // ( we want to find the intersection in direction of the particle
     // trajectory)
 
+    // The box is the common part of three slabs, so the ray is inside of the box
+    // exactly while it is inside of all of them. In contrast to looking at the
+    // six faces one by one, this is also correct for rays that hit an edge or a
+    // corner, where several faces are hit at once (or, due to rounding, none).
+
     auto dir_vec = Cartesian3D(direction);
     auto pos_vec = Cartesian3D(position);
 
-    std::pair<double, double> distance;
-    double t;
-    double intersection_x;
-    double intersection_y;
-    double intersection_z;
-
-    std::vector<double> dist;
-
-    double x_calc_pos = position_.GetX() + 0.5 * x_;
-    double x_calc_neg = position_.GetX() - 0.5 * x_;
-    double y_calc_pos = position_.GetY() + 0.5 * y_;
-    double y_calc_neg = position_.GetY() - 0.5 * y_;
-    double z_calc_pos = position_.GetZ() + 0.5 * z_;
-    double z_calc_neg = position_.GetZ() - 0.5 * z_;
-
-    // intersection with E1
-    if (dir_vec.GetX() != 0) // if dir_vec == 0 particle trajectory is parallel to E1
-    {
-        t = (x_calc_pos - pos_vec.GetX()) / dir_vec.GetX();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_y >= y_calc_neg && intersection_y <= y_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E2
-    if (dir_vec.GetX() != 0) // if dir_vec == 0 particle trajectory is parallel to E2
-    {
-        t = (x_calc_neg - pos_vec.GetX()) / dir_vec.GetX();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
+    const double pos[3] = { pos_vec.GetX() - position_.GetX(),
+                            pos_vec.GetY() - position_.GetY(),
+                            pos_vec.GetZ() - position_.GetZ() };
+    const double dir[3] = { dir_vec.GetX(), dir_vec.GetY(), dir_vec.GetZ() };
+    const double half[3] = { 0.5 * x_, 0.5 * y_, 0.5 * z_ };
 
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_y >= y_calc_neg && intersection_y <= y_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
+    double t_in  = -std::numeric_limits<double>::infinity();
+    double t_out = std::numeric_limits<double>::infinity();
 
-    // intersection with E3
-    if (dir_vec.GetY() != 0) // if dir_vec == 0 particle trajectory is parallel to E3
+    for (int i = 0; i < 3; ++i)
     {
-        t = (y_calc_pos - pos_vec.GetY()) / dir_vec.GetY();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
+        if (dir[i] == 0) // particle trajectory is parallel to these two faces
         {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
+            if (pos[i] < -half[i] || pos[i] > half[i])
+                return { -1, -1 };
+            continue;
         }
+        double t1 = (-half[i] - pos[i]) / dir[i];
+        double t2 = (half[i] - pos[i]) / dir[i];
+        t_in  = std::max(t_in, std::min(t1, t2));
+        t_out = std::min(t_out, std::max(t1, t2));
     }
 
-    // intersection with E4
-    if (dir_vec.GetY() != 0) // if dir_vec == 0 particle trajectory is parallel to E4
-    {
-        t = (y_calc_neg - pos_vec.GetY()) / dir_vec.GetY();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E5
-    if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel to E5
-    {
-        t = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_y >= y_calc_neg &&
-                intersection_y <= y_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E6
-    if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel to E6
-    {
-        t = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_y >= y_calc_neg &&
-                intersection_y <= y_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    if (dist.size() < 1) // No intersection with the box
-    {
-        distance.first  = -1;
-        distance.second = -1;
-    } else if (dist.size() == 1) // Particle is inside the box and we have one
-                                 // intersection in direction of the particle
-                                 // trajectory
-    {
-        distance.first  = dist.at(0);
-        distance.second = -1;
-    } else if (dist.size() == 2) // Particle is outside and the box is infront
-                                 // of the particle trajectory ( two
-                                 // intersections).
-    {
-        if (dist.at(0) == dist.at(1)) {
-            // Both distances are equal, this means he have hit an edge of the box
-            distance.first = dist.at(0);
-            distance.second = -1;
-        }
-        distance.first  = dist.at(0);
-        distance.second = dist.at(1);
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else if (dist.size() == 3 && dist.at(0) == dist.at(1) && dist.at(1) == dist.at(2))
-    {
-        // We have three intersections, all of them are equal, this means we
-        // hit an corner of the box
-        distance.first = dist.at(0);
-        distance.second = -1;
-    } else
-    {
-        Logging::Get("proposal.geometry")->error("This point should never be reached... (-1/-1) is returned");
-
-        distance.first  = -1;
-        distance.second = -1;
-    }
-
-    // Make a computer precision controll!
-    // This is necessary cause due to numerical effects it meight be happen
-    // that a particle which is located on a gemoetry border is treated as
-    // inside
-    // or outside
-    if (distance.first < GEOMETRY_PRECISION)
-        distance.first = -1;
-    if (distance.second < GEOMETRY_PRECISION)
-        distance.second = -1;
-    if (distance.first < 0)
-        std::swap(distance.first, distance.second);
+    // Computer precision controll: a border which is closer than
+    // GEOMETRY_PRECISION is not treated as an intersection
 
-    return distance;
+    if (!(t_in < t_out) || t_out < GEOMETRY_PRECISION || std::isinf(t_out))
+        return { -1, -1 }; // box is missed, behind the particle, or touched
+    if (t_in < GEOMETRY_PRECISION)
+        return { t_out, -1 }; // particle is inside the box
+    return { t_in, t_out }; // box is infront of the particle
 }
-- 
2.43.0


From b2474f1dae622813573bdd7db4d6d8ce14314452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 02/98] fix: cylinder distances for rays through a rim

A ray through the rim between barrel and top/bottom (or hole) surface was
counted on both surfaces or on neither, so that the cylinder was reported as
not hit, or an uninitialised distance was returned.
---
 .../detail/PROPOSAL/geometry/Cylinder.cxx     | 481 +++---------------
 1 file changed, 62 insertions(+), 419 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 6a5a27c..7dafced 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -1,6 +1,7 @@
 
+#include <algorithm>
 #include <cmath>
-#include <vector>
+#include <limits>
 
 #include "PROPOSAL/Constants.h"
 #include "PROPOSAL/Logging.h"
@@ -86,435 +87,77 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
     // ( dist_1 / -1 ) particle is inside the cylinder or on border and moving
     // inside
 
-    double A, B, C, t1, t2, t;
+    // The (full) cylinder is the common part of the barrel and of the slab
+    // between bottom and top surface, so the ray is inside of it exactly while
+    // it is inside of both. Removing the part of the ray in the hole leaves up
+    // to two sections in the material of the cylinder. In contrast to looking at
+    // the surfaces one by one, this is also correct for rays that hit a rim.
+
     auto dir_vec = Cartesian3D(direction);
     auto pos_vec = Cartesian3D(position);
 
-    double determinant;
-
-    double intersection_x;
-    double intersection_y;
-    double intersection_z;
-
-    std::vector<double> dist;
-
-    std::pair<double, double> distance;
-
-    double z_calc_pos = position_.GetZ() + 0.5 * z_;
-    double z_calc_neg = position_.GetZ() - 0.5 * z_;
-
-    if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0)) // Otherwise the particle
-                                             // trajectory is parallel to
-                                             // cylinder barrel
-    {
-
-        A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-            std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-            radius_*radius_;
-
-        B = 2 * ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
-
-        C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
-
-        B /= C;
-        A /= C;
-
-        determinant = 0.25 * B*B - A;
-
-        if (determinant > 0) // determinant == 0 (boundery point) is ignored
-        {
-            t1 = -1 * B / 2 + std::sqrt(determinant);
-            t2 = -1 * B / 2 - std::sqrt(determinant);
-
-            // Computer precision controll
-            if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                t1 = 0;
-            if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                t2 = 0;
-
-            if (t1 > 0)
-            {
-                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                // is inside the borders
-                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                {
-                    dist.push_back(t1);
-                }
-            }
-
-            if (t2 > 0)
-            {
-                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                // is inside the borders
-                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                {
-                    dist.push_back(t2);
-                }
-            }
-        }
-    }
-
-    // if we have found already to intersections we don't have to check for
-    // intersections
-    // with top or bottom surface
-    if (dist.size() < 2)
-    {
-        // intersection with E1
-        if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel
-                            // to E1 (Should not happen)
-        {
-            t = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
-            // Computer precision controll
-            if (t > 0 && t < GEOMETRY_PRECISION)
-                t = 0;
-
-            if (t > 0) // Interection is in particle trajectory direction
-            {
-                intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-                intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-
-                if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
-                {
-                    dist.push_back(t);
-                }
-            }
-        }
-
-        // intersection with E2
-        if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel
-                            // to E2 (Should not happen)
-        {
-            t = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
-
-            // Computer precision controll
-            if (t > 0 && t < GEOMETRY_PRECISION)
-                t = 0;
-
-            if (t > 0) // Interection is in particle trajectory direction
-            {
-                intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-                intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
+    const double x = pos_vec.GetX() - position_.GetX();
+    const double y = pos_vec.GetY() - position_.GetY();
+    const double z = pos_vec.GetZ() - position_.GetZ();
+
+    const double infinity = std::numeric_limits<double>::infinity();
+    const double C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
+    const double B = x * dir_vec.GetX() + y * dir_vec.GetY();
+
+    // Part of the ray inside of an (infinitely long) barrel
+    auto barrel = [&](double radius, bool include_border, double& t_in, double& t_out) {
+        const double A = x * x + y * y - radius * radius;
+        t_in  = -infinity;
+        t_out = infinity;
+        if (C == 0) // particle trajectory is parallel to the barrel
+            return A < 0 || (include_border && A == 0);
+        const double determinant = B * B / (C * C) - A / C;
+        if (!(determinant > 0)) // determinant == 0 (boundery point) is ignored
+            return false;
+        t_in  = -B / C - std::sqrt(determinant);
+        t_out = -B / C + std::sqrt(determinant);
+        return true;
+    };
 
-                if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
-                {
-                    dist.push_back(t);
-                }
-            }
-        }
-    }
-    // No intersection with the outer cylinder
-    if (dist.size() < 1)
-    {
-        distance.first  = -1;
-        distance.second = -1;
-        //    return distance;
-    } else if (dist.size() == 1) // particle is inside the cylinder
-    {
-        distance.first  = dist.at(0);
-        distance.second = -1;
+    double t_in, t_out;
+    if (!barrel(radius_, true, t_in, t_out))
+        return { -1, -1 };
 
-    } else if (dist.size() == 2) // cylinder is infront of the particle
+    if (dir_vec.GetZ() == 0) // particle trajectory is parallel to top and bottom
     {
-        distance.first  = dist.at(0);
-        distance.second = dist.at(1);
-
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
+        if (z < -0.5 * z_ || z > 0.5 * z_)
+            return { -1, -1 };
     } else
     {
-        Logging::Get("proposal.geometry")->error("This point should never be reached");
-    }
-    // This cylinder might be hollow and we have to check if the inner border is
-    // reached before.
-    // So we caluculate the intersection with the inner cylinder.
-
-    if (inner_radius_ > 0)
-    {
-        if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0))
-        {
-
-            A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-                inner_radius_*inner_radius_;
-
-            B = 2 *
-                ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
-
-            C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
-
-            B /= C;
-            A /= C;
-
-            determinant = 0.25 * B*B - A;
-
-            if (determinant > 0) // determinant == 0 (boundery point) is ignored
-            {
-                t1 = -1 * B / 2 + std::sqrt(determinant);
-                t2 = -1 * B / 2 - std::sqrt(determinant);
-
-                // Computer precision controll
-                if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                    t1 = 0;
-                if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                    t2 = 0;
-
-                // Ok we have a intersection with the inner cylinder
-
-                // If distance.first and distance.second are positive this means
-                // the cylinder is infornt of the particle. So the first
-                // distance
-                // ( intersection with the outer border) does not change
-                // but the second distance has to be updated (intersection with
-                // the inner border)
-                if (distance.first > 0 && distance.second > 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t1 < distance.second)
-                                distance.second = t1;
-                        }
-                    }
-
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t2 < distance.second)
-                                distance.second = t2;
-                        }
-                    }
-                }
-                // The particle trajectory hits the inner cylinder first
-                // (particle flys through the hole and hits inner cylinder
-                // barrel first)
-                //  ___  ^     ___
-                // |   |  \   |   |
-                // |   |   \  |   |
-                // |   |    \ |   |
-                // |   |     \|   |
-                // |   |      *   |
-                // |   |      |\  |
-                // |   |      | x |
-                // |   |      |   |
-                // |___|      |___|
-                else if (distance.first < 0 && distance.second < 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t1;
-                        }
-                    }
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t2;
-                        }
-                    }
-                }
-                // The particle is inside the outer cylinder
-                // or particle hits bottom or top surface and then hits
-                // the inner cylinder barrel
-                else
-                {
-                    // The inner cylinder is infront of the particle trajectory
-                    // distance.first has to be updated
-                    if (t1 > 0 && t2 > 0)
-                    {
-                        //  _____        _____
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // | x---*----->|     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |_____|      |_____|
-                        //
-                        if (pos_vec.GetZ() >= z_calc_neg && pos_vec.GetZ() <= z_calc_pos &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) <=
-                                radius_ + GEOMETRY_PRECISION &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) >=
-                                inner_radius_ - GEOMETRY_PRECISION)
-                        {
-                            if (t1 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t1;
-                                }
-                            }
-                            if (t2 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t2;
-                                }
-                            }
-                        }
-                        //               ^
-                        //  _____       / _____
-                        // |     |     / |     |
-                        // |     |    /  |     |
-                        // |     |   /   |     |
-                        // |     |  /    |     |
-                        // |     | /     |     |
-                        // |     |/      |     |
-                        // |     *       |     |
-                        // |    /|       |     |
-                        // |___/_|       |_____|
-                        //    *
-                        //   x
-                        else
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                // This case means particle is inside in hits
-                                // inner cylinder first
-                                distance.second = t1;
-                            }
-
-                            if (distance.second < 0)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.second = t2;
-                                }
-                            }
-                        }
-                    }
-                    // The particle is inside the inner cylinder
-                    // this means distance.second becomes distanc.first
-                    // and distance.first beomces distance to intersection with
-                    // the inner cylinder in direction of the particle
-                    // trajectory
-                    //  _____        _____
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |  x---*-----*------->
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |_____|      |_____|
-                    //
-                    if ((t1 > 0 && t2 < 0) || (t2 > 0 && t1 < 0))
-                    {
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        } else
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                    }
-                    // Now we have to check if the particle is on the border of
-                    // the inner sphere
-                    if (t1 == 0)
-                    {
-                        // The particle is moving into the inner cylinder
-                        if (t2 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                    if (t2 == 0)
-                    {
-                        // The particle is moving into the inner sphere
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                }
-            }
-        }
+        double t1 = (-0.5 * z_ - z) / dir_vec.GetZ();
+        double t2 = (0.5 * z_ - z) / dir_vec.GetZ();
+        t_in  = std::max(t_in, std::min(t1, t2));
+        t_out = std::min(t_out, std::max(t1, t2));
     }
 
-    // Make a computer precision controll!
-    // This is necessary cause due to numerical effects it meight be happen
-    // that a particle which is located on a gemoetry border is treated as
-    // inside
-    // or outside
+    if (std::isinf(t_out))
+        return { -1, -1 };
+
+    // Computer precision controll: a border which is closer than
+    // GEOMETRY_PRECISION is not treated as an intersection
+    auto section = [](double begin, double end, std::pair<double, double>& distance) {
+        if (!(begin < end) || end < GEOMETRY_PRECISION)
+            return false; // nothing there or behind the particle
+        if (begin < GEOMETRY_PRECISION)
+            distance = { end, -1 };
+        else
+            distance = { begin, end };
+        return true;
+    };
 
-    if (distance.first < GEOMETRY_PRECISION)
-        distance.first = -1;
-    if (distance.second < GEOMETRY_PRECISION)
-        distance.second = -1;
-    if (distance.first < 0)
-        std::swap(distance.first, distance.second);
+    std::pair<double, double> distance { -1, -1 };
+    double hole_in, hole_out;
+    if (inner_radius_ > 0 && barrel(inner_radius_, false, hole_in, hole_out))
+    {
+        if (!section(t_in, std::min(t_out, hole_in), distance))
+            section(std::max(t_in, hole_out), t_out, distance);
+    } else
+        section(t_in, t_out, distance);
 
     return distance;
 }
-- 
2.43.0


From 568b0587dbfb5d8a41d3656cd0d653c2e419af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:33 +0000
Subject: [PATCH 03/98] fix: keep fractional inner radii of geometries from
 JSON

The default value 0 made the lookup convert the number to int, so that a
hollow with inner radius 6.5 became one with 6.
---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 2 +-
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 7dafced..f01bee6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -37,7 +37,7 @@ Cylinder::Cylinder(const nlohmann::json& config)
 
 
     radius_ = config["outer_radius"].get<double>();
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
     assert(inner_radius_>=0);
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 37a9d50..8210cff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -33,7 +33,7 @@ Sphere::Sphere(const nlohmann::json& config)
 
     config["outer_radius"].get_to(radius_);
 
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
     if(radius_ < inner_radius_)
        throw std::logic_error("radius must be larger than inner radius");
-- 
2.43.0


From d558a1feb53e29cef1a3717fe1680a5194ac972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:33 +0000
Subject: [PATCH 04/98] fix: reject invalid JSON descriptions of a cylinder

The description was only checked by assertions, so that a release build
accessed missing keys (undefined behaviour) and accepted negative sizes.
---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index f01bee6..d9cb340 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -32,17 +32,19 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
-    assert(config["outer_radius"].is_number());
-    assert(config["height"].is_number());
-
+    if(!config.at("outer_radius").is_number())
+        throw std::invalid_argument("Outer radius is not a number.");
+    if(!config.at("height").is_number())
+        throw std::invalid_argument("Height is not a number.");
 
     radius_ = config["outer_radius"].get<double>();
     inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
-    assert(inner_radius_>=0);
-    assert(radius_>inner_radius_);
-    assert(z_>0);
+    if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
+    if(radius_ < inner_radius_)
+        throw std::logic_error("radius must be larger than inner radius");
+    if(z_ < 0) throw std::logic_error("height must be > 0");
 }
 
 bool Cylinder::compare(const Geometry& geometry) const
-- 
2.43.0


From 7d594795ebf003c7105d1c0d8dd5bed741bfeba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:33 +0000
Subject: [PATCH 05/98] fix: geometries from JSON compare equal to constructed
 ones

The name was copied from the description ("sphere") while constructed
objects are called "Sphere", and the name is part of the comparison.
---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx      | 2 ++
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 2 ++
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index b4ac71c..162b21d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -22,6 +22,8 @@ Box::Box(const Vector3D& position, double x, double y, double z)
 Box::Box(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Box";
+
     if(!config.at("length").is_number())
         throw std::invalid_argument("Length is not a number.");
     if(!config.at("width").is_number())
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index d9cb340..6f385fd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -32,6 +32,8 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Cylinder";
+
     if(!config.at("outer_radius").is_number())
         throw std::invalid_argument("Outer radius is not a number.");
     if(!config.at("height").is_number())
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 8210cff..97abb16 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -27,6 +27,8 @@ Sphere::Sphere(const Vector3D& position, double radius, double inner_radius)
 Sphere::Sphere(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Sphere";
+
     if(!config.is_object()) throw std::invalid_argument("No json object found.");
     if(!config.at("outer_radius").is_number())
         throw std::invalid_argument("Outer radius is not a number.");
-- 
2.43.0


From 2ec282dad84b8a8bedda41ad6a0705510c4c41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:19 +0000
Subject: [PATCH 06/98] fix: copies of a polynomial share their coefficients

---
 src/PROPOSAL/PROPOSAL/math/Function.h          |  4 ++--
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 18 +++++-------------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Function.h b/src/PROPOSAL/PROPOSAL/math/Function.h
index b2aefe5..02aecd7 100644
--- a/src/PROPOSAL/PROPOSAL/math/Function.h
+++ b/src/PROPOSAL/PROPOSAL/math/Function.h
@@ -43,7 +43,7 @@ class Polynom {
    public:
     Polynom(std::vector<double> coefficients);
     Polynom(const nlohmann::json&);
-    Polynom(const Polynom&);
+    Polynom(const Polynom&) = default;
 
     ~Polynom() {};
     Polynom& operator=(const Polynom& poly) = default;
@@ -66,7 +66,7 @@ class Polynom {
 
    protected:
     int N_;
-    double* coeff_;
+    std::vector<double> coeff_;
 };
 
 }  // namespace PROPOSAL
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 0138e80..5dcabda 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -12,23 +12,16 @@
 
 using namespace PROPOSAL;
 
-Polynom::Polynom(std::vector<double> coefficients) : N_(coefficients.size()) {
-    coeff_ = new double[N_];
-
-    std::copy(coefficients.begin(), coefficients.end(), coeff_);
-}
+Polynom::Polynom(std::vector<double> coefficients)
+    : N_(coefficients.size()), coeff_(coefficients) {}
 
 Polynom::Polynom(const nlohmann::json& config) {
     if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
 
-    N_ = config["coefficients"].get<std::vector<double>>().size();
-    coeff_ = new double[N_];
-
-    std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
+    coeff_ = config["coefficients"].get<std::vector<double>>();
+    N_ = coeff_.size();
 }
 
-Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(poly.coeff_) {}
-
 bool Polynom::operator==(const Polynom& polynom) const {
     if (N_ != polynom.N_)
         return false;
@@ -98,8 +91,7 @@ Polynom Polynom::GetAntiderivative(double constant) {
 }
 
 std::vector<double> Polynom::GetCoefficient() const {
-    std::vector<double> v(coeff_, coeff_ + N_);
-    return v;
+    return coeff_;
 }
 
 std::function<double(double)> Polynom::GetFunction() {
-- 
2.43.0


From c027d027d1b1b9e0bf800b5ab95743214449c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:19 +0000
Subject: [PATCH 07/98] fix: polynomials can be created from JSON as documented

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 5dcabda..d00b17a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -16,7 +16,9 @@ Polynom::Polynom(std::vector<double> coefficients)
     : N_(coefficients.size()), coeff_(coefficients) {}
 
 Polynom::Polynom(const nlohmann::json& config) {
-    if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
+    if(!config.contains("coefficients")) throw std::invalid_argument("Polynom: coefficients must be defined.");
+    if(!config["coefficients"].is_array() || config["coefficients"].empty())
+        throw std::invalid_argument("Polynom: coefficients is not an array with entries.");
 
     coeff_ = config["coefficients"].get<std::vector<double>>();
     N_ = coeff_.size();
-- 
2.43.0


From 3719a6164151df93a155d547fed4214366596360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:19 +0000
Subject: [PATCH 08/98] fix: derivative of a constant polynomial

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index d00b17a..e0d2d5f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -80,6 +80,10 @@ Polynom Polynom::GetDerivative() {
     for (auto i = 1; i < N_; ++i)
         derivative_coeff_.push_back(coeff_[i] * i);
 
+    // derivative of a constant
+    if (derivative_coeff_.empty())
+        derivative_coeff_.push_back(0.);
+
     return Polynom(derivative_coeff_);
 }
 
-- 
2.43.0


From 16a53e23041000e8f45a1de20b0f05a329d508e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:19 +0000
Subject: [PATCH 09/98] fix: shift polynomials by tiny and huge distances

---
 .../detail/PROPOSAL/math/Function.cxx         | 28 +++----------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index e0d2d5f..fb2f75a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -3,7 +3,6 @@
 #include <cmath>
 #include <functional>
 #include <iostream>
-#include "PROPOSAL/Constants.h"
 #include <nlohmann/json.hpp>
 
 // %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
@@ -48,29 +47,10 @@ double Polynom::evaluate(double x) {
 }
 
 void Polynom::shift(double x) {
-    // Shaw and Traub method for the Taylor shift
-    // https://planetcalc.com/7726/#fnref1:shaw
-
-    if (std::fabs(x) > GEOMETRY_PRECISION) {
-        int n = N_ - 1;
-        double** t = new double*[N_];
-        for (int count = 0; count < N_; ++count)
-            t[count] = new double[N_];
-
-        for (int i = 0; i < n; ++i) {
-            t[i][0] = coeff_[n - i - 1] * std::pow(x, n - i - 1);
-            t[i][i + 1] = coeff_[n] * std::pow(x, n);
-        }
-
-        for (int j = 0; j <= n - 1; ++j) {
-            for (int i = j + 1; i <= n; ++i) {
-                t[i][j + 1] = t[i - 1][j] + t[i - 1][j + 1];
-            }
-        }
-
-        for (int i = 0; i <= n - 1; ++i) {
-            coeff_[i] = t[n][i + 1] / std::pow(x, i);
-        }
+    // Taylor shift by repeated synthetic division
+    for (int i = 0; i < N_ - 1; ++i) {
+        for (int j = N_ - 2; j >= i; --j)
+            coeff_[j] += x * coeff_[j + 1];
     }
 }
 
-- 
2.43.0


From f41c9f4c2f7e62e862a04e302e3ad599a468123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:19 +0000
Subject: [PATCH 10/98] fix: Spline::Derivative has no effect

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 938e313..f883a8a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -78,7 +78,7 @@ double Spline::evaluate(double x) {
 }
 
 void Spline::Derivative() {
-    for (auto spline : splines_)
+    for (auto& spline : splines_)
         spline = spline.GetDerivative();
 }
 
-- 
2.43.0


From 54169ea461486a42832f497cc1cd5fc1c6a159bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:19 +0000
Subject: [PATCH 11/98] fix: number of intervals of splines created from
 polynomials

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index f883a8a..7ad61fd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -24,7 +24,7 @@ Spline::Spline(std::vector<double> x, std::vector<double> y) : x_(x), y_(y) {
 Spline::Spline(std::vector<Polynom> splines, std::vector<double> subintervall)
     : splines_(splines),
       subintervall_(subintervall),
-      n_subintervalls_(subintervall_.size()) {}
+      n_subintervalls_(splines_.size()) {}
 
 Spline::Spline(const Spline& spline)
     : splines_(spline.splines_),
-- 
2.43.0


From 4fe22f7c21c635dd2af876fb2730a26db1f2c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:19 +0000
Subject: [PATCH 12/98] fix: storing splines loses precision or the spline
 itself

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 44 ++++++++++++++++----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 7ad61fd..f597ec7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -1,6 +1,9 @@
 #include <fstream>
+#include <iomanip>
 #include <iostream>
 #include <iterator>
+#include <limits>
+#include <sstream>
 #include <string>
 #include <utility>
 #include <vector>
@@ -33,9 +36,25 @@ Spline::Spline(const Spline& spline)
 
 Spline::Spline(std::string path, bool binary) {
     Table_read reader(path, binary);
-    reader.jump(2);
-
-    reader.read(*this);
+    if (binary) {
+        reader.read(n_subintervalls_);
+        double lower, upper = 0;
+        unsigned int n_coeff;
+        for (unsigned int i = 0; i < n_subintervalls_; ++i) {
+            reader.read(lower);
+            reader.read(upper);
+            reader.read(n_coeff);
+            std::vector<double> coeff(n_coeff);
+            for (auto& a_i : coeff)
+                reader.read(a_i);
+            subintervall_.push_back(lower);
+            splines_.push_back(Polynom(coeff));
+        }
+        subintervall_.push_back(upper);
+    } else {
+        reader.jump(2);
+        reader.read(*this);
+    }
 }
 
 Spline::Spline(const nlohmann::json& config) {
@@ -114,11 +133,22 @@ std::vector<spline_container> Spline::GetSplineContainer() const {
 }
 
 bool Spline::save(std::string path, bool binary) {
-    std::stringstream sstr;
-    sstr << *this;
-
     Table_write writer(path, binary);
-    writer.write(sstr.str());
+    if (binary) {
+        writer.write(n_subintervalls_);
+        for (const auto& container : GetSplineContainer()) {
+            writer.write(container.domain.first);
+            writer.write(container.domain.second);
+            writer.write(static_cast<unsigned int>(container.coeff.size()));
+            for (auto a_i : container.coeff)
+                writer.write(a_i);
+        }
+    } else {
+        std::stringstream sstr;
+        sstr << std::setprecision(std::numeric_limits<double>::max_digits10);
+        sstr << *this;
+        writer.write(sstr.str());
+    }
     writer.close();
 
     return 1;
-- 
2.43.0


From fd41138a2aa73d09545743628514f415698b113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 13/98] fix: function of a polynomial dangles when the
 polynomial is gone

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index fb2f75a..9044dbc 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -81,8 +81,8 @@ std::vector<double> Polynom::GetCoefficient() const {
 }
 
 std::function<double(double)> Polynom::GetFunction() {
-    return (std::function<double(double)>)std::bind(&Polynom::evaluate, this,
-                                                    std::placeholders::_1);
+    auto polynom = *this;
+    return [polynom](double x) mutable { return polynom.evaluate(x); };
 }
 
 namespace PROPOSAL {
-- 
2.43.0


From 8700c83b13c3f720f44df6149d97522af83bef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 14/98] fix: column depth along a radial axis has the wrong
 gradient

---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index ec0636a..9af63b2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -102,7 +102,7 @@ double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& dire
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
     aux.normalize();
 
-    return -aux * direction;
+    return aux * direction;
 }
 
 // %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
-- 
2.43.0


From 5bb87212a124b53d3d2bf6e66b622c30da827704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 15/98] fix: column depth of polynomial and spline densities
 along oblique directions

---
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx      | 4 ++--
 .../detail/PROPOSAL/density_distr/density_splines.cxx         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index b61cc00..87216b5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -59,7 +59,7 @@ double Density_polynomial::helper_function(const Vector3D& xi,
                                            double l) const {
     (void)res;
     Cartesian3D dir_cartesian(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_polynomial::Correct(const Vector3D& xi,
@@ -88,7 +88,7 @@ double Density_polynomial::Integrate(const Vector3D& xi,
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
     return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) /
-           (delta * delta);
+           delta;
 }
 
 double Density_polynomial::Calculate(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 6933db5..50edb5a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -63,7 +63,7 @@ double Density_splines::helper_function(const Vector3D& xi,
                                         double l) const {
     (void)res;
     auto dir_cartesian = Cartesian3D(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_splines::Correct(const Vector3D& xi,
@@ -88,7 +88,7 @@ double Density_splines::Integrate(const Vector3D& xi,
                                   double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
-    return massDensity_ / (delta * delta) *
+    return massDensity_ / delta *
            integrated_spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
-- 
2.43.0


From 275165814e20a8ca30aa5e472677317d075875f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 16/98] fix: exponential density in directions (almost)
 perpendicular to its axis

---
 .../density_distr/density_exponential.cxx         | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
index 02f75e7..d34c226 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
@@ -48,9 +48,12 @@ double Density_exponential::Correct(const Vector3D& xi,
     double phi = GetDepth(xi);
     double delta = GetEffectiveDistance(xi, direction);
 
-    double aux = 1. / delta * std::log(1 + std::exp(-phi) * res * delta / massDensity_);
+    double aux = std::exp(-phi) * res / massDensity_;
+    // the density does not change perpendicular to the axis
+    if (delta != 0)
+        aux = std::log1p(aux * delta) / delta;
 
-    if (std::isnan(aux))
+    if (!std::isfinite(aux))
         throw DensityException("Next interaction point lies in infinite.");
 
     return aux;
@@ -67,7 +70,13 @@ double Density_exponential::Integrate(const Vector3D& xi,
 double Density_exponential::Calculate(const Vector3D& xi,
                                       const Vector3D& direction,
                                       double distance) const {
-    return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
+    double delta = GetEffectiveDistance(xi, direction);
+
+    // the density does not change perpendicular to the axis
+    if (delta == 0)
+        return Evaluate(xi) * distance;
+
+    return Evaluate(xi) * std::expm1(distance * delta) / delta;
 }
 
 double Density_exponential::Evaluate(const Vector3D& xi) const {
-- 
2.43.0


From ec1cf01e7da2049c1e32225c0a187e4e639c2201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 17/98] fix: polynomial and spline densities perpendicular to
 their axis

---
 .../PROPOSAL/density_distr/density_polynomial.cxx     | 11 ++++++++++-
 .../detail/PROPOSAL/density_distr/density_splines.cxx | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index 87216b5..1b99be9 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -1,4 +1,5 @@
 
+#include <cmath>
 #include <functional>
 #include "PROPOSAL/math/MathMethods.h"
 #include "PROPOSAL/density_distr/density_polynomial.h"
@@ -50,7 +51,7 @@ double Density_polynomial::Helper_function(const Vector3D& xi,
                                            const Vector3D& direction,
                                            double res,
                                            double l) const {
-    return Integrate(xi, direction, 0) - Integrate(xi, direction, l) + res;
+    return res - Calculate(xi, direction, l);
 }
 
 double Density_polynomial::helper_function(const Vector3D& xi,
@@ -94,6 +95,14 @@ double Density_polynomial::Integrate(const Vector3D& xi,
 double Density_polynomial::Calculate(const Vector3D& xi,
                                      const Vector3D& direction,
                                      double distance) const {
+    double depth = axis_->GetDepth(xi);
+    double step = axis_->GetEffectiveDistance(xi, direction) * distance;
+
+    // the density does not change (almost) perpendicular to the axis, where the
+    // difference of the antiderivatives can not be resolved
+    if (std::abs(step) <= 1e-7 * std::abs(depth))
+        return massDensity_ * density_distribution(depth + step / 2) * distance;
+
     return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 50edb5a..6add9d8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -1,4 +1,5 @@
 
+#include <cmath>
 #include <functional>
 #include "PROPOSAL/density_distr/density_splines.h"
 #include "PROPOSAL/medium/Medium.h"
@@ -54,7 +55,7 @@ double Density_splines::Helper_function(const Vector3D& xi,
                                         const Vector3D& direction,
                                         double res,
                                         double l) const {
-    return Integrate(xi, direction, 0) - Integrate(xi, direction, l) + res;
+    return res - Calculate(xi, direction, l);
 }
 
 double Density_splines::helper_function(const Vector3D& xi,
@@ -95,6 +96,14 @@ double Density_splines::Integrate(const Vector3D& xi,
 double Density_splines::Calculate(const Vector3D& xi,
                                   const Vector3D& direction,
                                   double distance) const {
+    double depth = axis_->GetDepth(xi);
+    double step = axis_->GetEffectiveDistance(xi, direction) * distance;
+
+    // the density does not change (almost) perpendicular to the axis, where the
+    // difference of the antiderivatives can not be resolved
+    if (std::abs(step) <= 1e-7 * std::abs(depth))
+        return massDensity_ * spline_->evaluate(depth + step / 2) * distance;
+
     return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
 }
 
-- 
2.43.0


From a574bf32ee9af7f77676fa0c94cd574c84ec430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 18/98] fix: copies of spline densities share and double delete
 their splines

---
 .../detail/PROPOSAL/density_distr/density_splines.cxx     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 6add9d8..c488b0c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -20,8 +20,8 @@ Density_splines::Density_splines(const PROPOSAL::Axis& axis, const PROPOSAL::Spl
 
 Density_splines::Density_splines(const Density_splines& dens_splines)
     : Density_distr(dens_splines),
-      spline_(dens_splines.spline_),
-      integrated_spline_(dens_splines.integrated_spline_) {}
+      spline_(dens_splines.spline_->clone()),
+      integrated_spline_(dens_splines.integrated_spline_->clone()) {}
 
 Density_splines::Density_splines(const nlohmann::json& config) : Density_distr(config) {
     if(!config.contains("spline_type"))
@@ -44,9 +44,9 @@ bool Density_splines::compare(const Density_distr& dens_distr) const {
     const Density_splines* dens_splines= dynamic_cast<const Density_splines*>(&dens_distr);
     if(!dens_splines)
         return false;
-    if( spline_!= dens_splines->spline_)
+    if( *spline_ != *dens_splines->spline_)
         return false;
-    if( integrated_spline_!= dens_splines->integrated_spline_)
+    if( *integrated_spline_ != *dens_splines->integrated_spline_)
         return false;
     return true;
 }
-- 
2.43.0


From e523882a3921f9f628483bb902a34efb0aaee053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 19/98] fix: axes of different type or direction compare equal

---
 src/PROPOSAL/PROPOSAL/density_distr/density_distr.h |  5 ++---
 .../detail/PROPOSAL/density_distr/density_distr.cxx | 13 ++++++-------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 8300c05..a2c6268 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -42,7 +42,7 @@ class Axis {
 
     virtual ~Axis() {};
 
-    bool operator==(const Axis& axis) const;
+    virtual bool operator==(const Axis& axis) const;
     bool operator!=(const Axis& axis) const;
 
     virtual Axis* clone() const = 0;
@@ -83,8 +83,7 @@ class CartesianAxis : public Axis {
 
     Axis* clone() const override { return new CartesianAxis(*this); };
 
-    bool operator==(const CartesianAxis& axis) const;
-    bool operator!=(const CartesianAxis& axis) const;
+    bool operator==(const Axis& axis) const override;
 
     auto GetAxis() const { return fAxis_; };
     double GetDepth(const Vector3D& xi) const override;
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 9af63b2..22ba111 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -1,5 +1,6 @@
 
 #include <iostream>
+#include <typeinfo>
 #include "PROPOSAL/Logging.h"
 #include "PROPOSAL/density_distr/density_distr.h"
 #include "PROPOSAL/density_distr/density_exponential.h"
@@ -73,6 +74,8 @@ Axis::Axis(const nlohmann::json& config) {
 Axis::Axis(const Axis& axis) : fp0_(axis.fp0_) {}
 
 bool Axis::operator==(const Axis& axis) const {
+    if(typeid(*this) != typeid(axis))
+        return false;
     if(fp0_ != axis.fp0_)
         return false;
     return true;
@@ -121,14 +124,10 @@ CartesianAxis::CartesianAxis(const nlohmann::json& config) : Axis(config) {
     fAxis_ = Cartesian3D(config.at("fAxis"));
 }
 
-bool CartesianAxis::operator==(const CartesianAxis& axis) const {
-    if(fAxis_ != axis.fAxis_)
+bool CartesianAxis::operator==(const Axis& axis) const {
+    if(!Axis::operator==(axis))
         return false;
-    return Axis::operator==(axis);
-}
-
-bool CartesianAxis::operator!=(const CartesianAxis& axis) const {
-    return !(*this == axis);
+    return fAxis_ == static_cast<const CartesianAxis&>(axis).fAxis_;
 }
 
 double CartesianAxis::GetDepth(const Vector3D& xi) const {
-- 
2.43.0


From 23e799472a7fc7afaf6c7c95980e17fc935f5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 20/98] fix: assigned density distributions double delete their
 axis

---
 src/PROPOSAL/PROPOSAL/density_distr/density_distr.h   |  1 +
 src/PROPOSAL/PROPOSAL/density_distr/density_splines.h |  1 +
 .../detail/PROPOSAL/density_distr/density_distr.cxx   |  9 +++++++++
 .../detail/PROPOSAL/density_distr/density_splines.cxx | 11 +++++++++++
 4 files changed, 22 insertions(+)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index a2c6268..8ab9727 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -114,6 +114,7 @@ class Density_distr {
     Density_distr(const Axis& axis, double);
     Density_distr(const nlohmann::json&);
     Density_distr(const Density_distr&);
+    Density_distr& operator=(const Density_distr&);
 
     virtual ~Density_distr() { delete axis_; };
 
diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
index 81cf0c6..a66b0fe 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
@@ -44,6 +44,7 @@ class Density_splines : public Density_distr {
     Density_splines(const Axis&, const Spline&, double massDensity);
     Density_splines(const Axis&, const Spline&, const Medium& medium);
     Density_splines(const Density_splines&);
+    Density_splines& operator=(const Density_splines&);
     Density_splines(const nlohmann::json&);
 
     ~Density_splines() {
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 22ba111..05a8ac1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -18,6 +18,15 @@ Density_distr::Density_distr() : axis_(CartesianAxis().clone()), massDensity_(1.
 Density_distr::Density_distr(const Density_distr& density_distr)
     : axis_(density_distr.axis_->clone()), massDensity_(density_distr.massDensity_) {}
 
+Density_distr& Density_distr::operator=(const Density_distr& density_distr) {
+    if (this != &density_distr) {
+        delete axis_;
+        axis_ = density_distr.axis_->clone();
+        massDensity_ = density_distr.massDensity_;
+    }
+    return *this;
+}
+
 Density_distr::Density_distr(const nlohmann::json& config) {
     if(!config.contains("axis_type"))
         throw std::invalid_argument("Axis: Type of axis must be specified using axis_type");
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index c488b0c..c2e2780 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -23,6 +23,17 @@ Density_splines::Density_splines(const Density_splines& dens_splines)
       spline_(dens_splines.spline_->clone()),
       integrated_spline_(dens_splines.integrated_spline_->clone()) {}
 
+Density_splines& Density_splines::operator=(const Density_splines& dens_splines) {
+    if (this != &dens_splines) {
+        Density_distr::operator=(dens_splines);
+        delete spline_;
+        delete integrated_spline_;
+        spline_ = dens_splines.spline_->clone();
+        integrated_spline_ = dens_splines.integrated_spline_->clone();
+    }
+    return *this;
+}
+
 Density_splines::Density_splines(const nlohmann::json& config) : Density_distr(config) {
     if(!config.contains("spline_type"))
         throw std::invalid_argument("Density_splines: Type of splines must be specified using spline_type");
-- 
2.43.0


From 2daecca66345c0ed719d8d24e31678970070f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 21/98] fix: distances in polynomial and spline densities for
 large maximum distances

---
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx        | 2 +-
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index 1b99be9..c22ae5b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -75,7 +75,7 @@ double Density_polynomial::Correct(const Vector3D& xi,
 
     try {
         res =
-            NewtonRaphson(F, dF, 0, distance_to_border, distance_to_border / 2);
+            NewtonRaphson(F, dF, 0, distance_to_border, distance_to_border / 2, 1000);
     } catch (MathException& e) {
         throw DensityException("Next interaction point lies in infinite.");
     }
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index c2e2780..cdb8606 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -87,7 +87,7 @@ double Density_splines::Correct(const Vector3D& xi,
 
     try {
         res =
-            NewtonRaphson(F, dF, 0, distance_to_border, distance_to_border / 2);
+            NewtonRaphson(F, dF, 0, distance_to_border, distance_to_border / 2, 1000);
     } catch (MathException& e) {
         throw DensityException("Next interaction point lies in infinite.");
     }
-- 
2.43.0


From 3678e87a63ea331ae50511c474bea9814df90998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:17 +0000
Subject: [PATCH 22/98] fix: derivative of the column depth along curved radial
 paths

---
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx      | 4 ++--
 .../detail/PROPOSAL/density_distr/density_splines.cxx         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index c22ae5b..77f5c28 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -59,8 +59,8 @@ double Density_polynomial::helper_function(const Vector3D& xi,
                                            double res,
                                            double l) const {
     (void)res;
-    Cartesian3D dir_cartesian(direction);
-    return -Evaluate(xi + l * dir_cartesian);
+    double delta = axis_->GetEffectiveDistance(xi, direction);
+    return -massDensity_ * density_distribution(axis_->GetDepth(xi) + l * delta);
 }
 
 double Density_polynomial::Correct(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index cdb8606..ea88b8b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -74,8 +74,8 @@ double Density_splines::helper_function(const Vector3D& xi,
                                         double res,
                                         double l) const {
     (void)res;
-    auto dir_cartesian = Cartesian3D(direction);
-    return -Evaluate(xi + l * dir_cartesian);
+    double delta = axis_->GetEffectiveDistance(xi, direction);
+    return -massDensity_ * spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
 double Density_splines::Correct(const Vector3D& xi,
-- 
2.43.0


From 179a9436e8cd53a9cdbab6b362e76d01991caaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 23/98] fix: column depth for paths starting at the origin of a
 radial axis

---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 05a8ac1..f926da8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -112,6 +112,9 @@ double RadialAxis::GetDepth(const Vector3D& xi) const {
 
 double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const {
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
+    // all directions lead away from the origin
+    if (aux.magnitude() == 0)
+        return 1;
     aux.normalize();
 
     return aux * direction;
-- 
2.43.0


From ccee9745c504d25ccdfae90e55136a0e23f86d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:24 +0000
Subject: [PATCH 24/98] fix: precision of spherical coordinates and deflections
 near the poles

---
 src/PROPOSAL/detail/PROPOSAL/math/Cartesian3D.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Cartesian3D.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Cartesian3D.cxx
index 828ea24..e4f3cff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Cartesian3D.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Cartesian3D.cxx
@@ -144,7 +144,8 @@ std::array<double, 3> Cartesian3D::GetSphericalCoordinates() const {
         return {0., 0., 0.};
 
     auto azimuth = std::atan2(GetY(), GetX());
-    auto zenith = std::acos(GetZ() / r);
+    // acos(z/r) is imprecise close to the poles
+    auto zenith = std::atan2(std::hypot(GetX(), GetY()), GetZ());
 
     return {r, azimuth, zenith};
 }
-- 
2.43.0


From 84d08122a1dd7bf2fbdf3d196fcaec6837d71409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 25/98] fix: NewtonRaphson returns nan when it hits a root with
 zero slope

---
 src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
index 46208bb..f648f10 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
@@ -199,6 +199,9 @@ double NewtonRaphson(std::function<double(double)> func,
     df = dfunc(rts);
 
     for (int j = 1; j < MAX_STEPS; j++) {
+        if (f == 0.0) {
+            return rts;
+        }
         if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||
             (std::abs(2.0 * f) > std::abs(dxold * df))) {
             // use bisection if Newton method produces an x that is out of range
-- 
2.43.0


From 2372624b2ec331124807c26ddd0c7d88b2b7b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 26/98] fix: truncated gaussian samples are nan or outside of
 their limits

---
 src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
index f648f10..dd6add0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <utility>
 #include <fstream>
@@ -412,7 +413,10 @@ double SampleFromGaussian(double mean, double sigma, double rnd, double min, dou
     auto xlo = 0.5 + std::erf((min - mean) / (SQRT2 * sigma)) / 2;
     auto xhi = 0.5 + std::erf((max - mean) / (SQRT2 * sigma)) / 2;
     auto rndtmp = xlo + (xhi - xlo) * rnd;
-    return sigma * normalppf(rndtmp)  + mean;
+    // the far tails of the distribution can not be resolved
+    rndtmp = std::max(rndtmp, std::numeric_limits<double>::min());
+    rndtmp = std::min(rndtmp, 1 - std::numeric_limits<double>::epsilon() / 2);
+    return std::min(max, std::max(min, sigma * normalppf(rndtmp) + mean));
 }
 
 double SampleFromExponential(double p, double lambda) {
-- 
2.43.0


From f0b36f1475c066a78507a8c1a2e022734e90d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 27/98] fix: copied integrators refer to the integrand of the
 original

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index ab5af53..810c4c4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -396,7 +396,7 @@ Integral::Integral(const Integral& integral)
     , q_rlist2_(integral.q_rlist2_)
     , q_iord_(integral.q_iord_)
 {
-    integrand_ = std::ref(integral.integrand_);
+    integrand_ = integral.integrand_;
 }
 
 //----------------------------------------------------------------------------//
@@ -571,7 +571,7 @@ void Integral::swap(Integral& integral)
     c_.swap(integral.c_);
     d_.swap(integral.d_);
 
-    integrand_ = std::ref(integral.integrand_);
+    integrand_.swap(integral.integrand_);
 
     swap(romberg4refine_, integral.romberg4refine_);
     swap(powerOfSubstitution_, integral.powerOfSubstitution_);
-- 
2.43.0


From cc9c5a7cba93a6f875bbba5b52ec7e98a175bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 28/98] fix: buffers of the integrator are too small for few
 upper limit steps

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 810c4c4..073492d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -359,8 +359,8 @@ Integral::Integral()
         precision_ = 1.e-6;
     }
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
+    iX_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
+    iY_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
 
     aux = std::max(romberg_, romberg4refine_);
     c_.resize(aux);
@@ -446,8 +446,8 @@ Integral::Integral(int romberg, int maxSteps, double precision)
     this->maxSteps_upper_limit_ = maxSteps;
     this->precision_            = precision;
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
+    iX_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
+    iY_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
 
     aux = std::max(romberg_, romberg4refine_);
     c_.resize(aux);
@@ -2207,6 +2207,8 @@ void Integral::SetMaxStepsUpperLimit(int maxSteps)
 void Integral::SetMaxStepsRomberg(int maxSteps)
 {
     maxSteps_romberg_ = maxSteps;
+    iX_.resize(std::max<int>(iX_.size(), maxSteps));
+    iY_.resize(std::max<int>(iY_.size(), maxSteps));
 }
 
 void Integral::SetMin(double min)
@@ -2252,11 +2254,15 @@ void Integral::SetReverseX(double reverseX)
 void Integral::SetRomberg(int romberg)
 {
     romberg_ = romberg;
+    c_.resize(std::max<int>(c_.size(), romberg));
+    d_.resize(std::max<int>(d_.size(), romberg));
 }
 
 void Integral::SetRomberg4refine(int romberg4refine)
 {
     romberg4refine_ = romberg4refine;
+    c_.resize(std::max<int>(c_.size(), romberg4refine));
+    d_.resize(std::max<int>(d_.size(), romberg4refine));
 }
 
 void Integral::SetSavedResult(double savedResult)
-- 
2.43.0


From 016f7031ae7e13cb0afb660e88e80f6909277750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 29/98] fix: substitutions without valid limits evaluate the
 previous integrand

---
 .../detail/PROPOSAL/math/Integral.cxx         | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 073492d..dd18ec6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -184,6 +184,12 @@ double Integral::IntegrateWithSubstitution(double min,
             aux        = -aux;
         } else
         {
+            // limits outside of the range of the substitution
+            powerOfSubstitution_ = 0;
+            this->min_ = min;
+            this->max_ = min;
+            reverse_   = false;
+            randomDo_  = true;
             return 0;
         }
     } else if (powerOfSubstitution < 0)
@@ -200,6 +206,12 @@ double Integral::IntegrateWithSubstitution(double min,
             aux        = -aux;
         } else
         {
+            // limits outside of the range of the substitution
+            powerOfSubstitution_ = 0;
+            this->min_ = min;
+            this->max_ = min;
+            reverse_   = false;
+            randomDo_  = true;
             return 0;
         }
     } else
@@ -1197,6 +1209,13 @@ double Integral::IntegrateWithSubstitution(double min,
 
     aux = InitIntegralWithSubstitution(min, max, integrand, powerOfSubstitution);
 
+    if (aux == 0)
+    {
+        // limits outside of the range of the substitution
+        randomDo_ = false;
+        return 0;
+    }
+
     if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
     {
         return 0;
@@ -1455,6 +1474,13 @@ double Integral::IntegrateWithLogSubstitution(double min,
 
     aux = InitIntegralWithLogSubstitution(min, max, integrand, powerOfSubstitution);
 
+    if (aux == 0)
+    {
+        // limits outside of the range of the substitution
+        randomDo_ = false;
+        return 0;
+    }
+
     if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
     {
         return 0;
-- 
2.43.0


From 639fb5425c561b0e70c0ba1daa5a3e24da153404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 30/98] fix: repeated upper limits and upper limits of short
 intervals

---
 .../detail/PROPOSAL/math/Integral.cxx         | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index dd18ec6..bab3fe4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -107,32 +107,35 @@ double Integral::GetUpperLimit()
 
     if (randomDo_)
     {
+        double upperLimit;
         if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
         {
-            return min_;
+            upperLimit = min_;
+        } else
+        {
+            RefineUpperLimit(savedResult_);
+            upperLimit = randomX_;
         }
 
-        RefineUpperLimit(savedResult_);
-
         if (reverse_)
         {
-            randomX_ = reverseX_ - randomX_;
+            upperLimit = reverseX_ - upperLimit;
         }
 
         if (powerOfSubstitution_ > 0)
         {
-            randomX_ = std::pow(randomX_, -powerOfSubstitution_);
+            upperLimit = std::pow(upperLimit, -powerOfSubstitution_);
         } else if (powerOfSubstitution_ < 0)
         {
-            randomX_ = -std::pow(-randomX_, powerOfSubstitution_);
+            upperLimit = -std::pow(-upperLimit, powerOfSubstitution_);
         }
 
         if (useLog_)
         {
-            randomX_ = std::exp(randomX_);
+            upperLimit = std::exp(upperLimit);
         }
 
-        return randomX_;
+        return upperLimit;
     } else
     {
         Logging::Get("proposal.integral")->error("No previous call to upper limit functions was made!");
@@ -156,6 +159,7 @@ double Integral::IntegrateWithSubstitution(double min,
 
     if (std::abs(max - min) <= std::abs(min) * COMPUTER_PRECISION)
     {
+        powerOfSubstitution_ = 0;
         this->min_ = min;
         this->max_ = max;
         randomDo_  = true;
@@ -269,6 +273,8 @@ double Integral::IntegrateWithLog(double min, double max, std::function<double(d
 
     if (std::abs(max - min) <= std::abs(min) * COMPUTER_PRECISION)
     {
+        useLog_              = false;
+        powerOfSubstitution_ = 0;
         this->min_ = min;
         this->max_ = max;
         randomDo_  = true;
-- 
2.43.0


From 512242440c24cd19426ed332e4507f018de72436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 31/98] fix: absolute shares of exchanged limits or negative
 integrals

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index bab3fe4..576b280 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -311,7 +311,7 @@ double Integral::IntegrateWithLog(double min, double max, std::function<double(d
 
     if (randomNumber_ < 0)
     {
-        randomNumber_ /= -aux * result;
+        randomNumber_ /= -std::abs(result);
         if (randomNumber_ > 1)
         {
             randomNumber_ = 1;
-- 
2.43.0


From d4165aa09b66b36aba933af2d77d94db6092f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:37 +0000
Subject: [PATCH 32/98] fix: upper limit of the full integral given as absolute
 share

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 576b280..f0ef838 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -1245,6 +1245,7 @@ void Integral::RefineUpperLimit(double result)
     // is out of integral range.
     if (randomNumber_ == 0 || randomNumber_ == 1)
     {
+        randomX_ = randomNumber_ == 0 ? min_ : max_;
         return;
     }
 
-- 
2.43.0


From 56494dda516345fc1cf3da99b2313582f4df5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 33/98] fix: copied interpolation tables refer to the functions
 of the original

---
 .../detail/PROPOSAL/math/Interpolant.cxx      | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index d0f3300..d0de92a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -930,6 +930,7 @@ Interpolant::Interpolant(const Interpolant& interpolant)
     , rombergY_(interpolant.rombergY_)
     , iX_(interpolant.iX_)
     , iY_(interpolant.iY_)
+    , iY2_(interpolant.iY2_)
     , c_(interpolant.c_)
     , d_(interpolant.d_)
     , max_(interpolant.max_)
@@ -965,8 +966,12 @@ Interpolant::Interpolant(const Interpolant& interpolant)
         Interpolant_.at(i) = new Interpolant(*interpolant.Interpolant_.at(i));
     }
 
-    function1d_ = std::ref(interpolant.function1d_);
-    function2d_ = std::ref(interpolant.function2d_);
+    function1d_ = interpolant.function1d_;
+    function2d_ = interpolant.function2d_;
+    if (function2d_)
+    {
+        function1d_ = std::bind(&Interpolant::Get2dFunctionFixedY, this, std::placeholders::_1);
+    }
 }
 
 //----------------------------------------------------------------------------//
@@ -1581,11 +1586,22 @@ void Interpolant::swap(Interpolant& interpolant)
 
     iX_.swap(interpolant.iX_);
     iY_.swap(interpolant.iY_);
+    iY2_.swap(interpolant.iY2_);
 
     c_.swap(interpolant.c_);
     d_.swap(interpolant.d_);
 
     Interpolant_.swap(interpolant.Interpolant_);
+
+    function1d_.swap(interpolant.function1d_);
+    function2d_.swap(interpolant.function2d_);
+    for (auto* table : { this, &interpolant })
+    {
+        if (table->function2d_)
+        {
+            table->function1d_ = std::bind(&Interpolant::Get2dFunctionFixedY, table, std::placeholders::_1);
+        }
+    }
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 6f0d5f55f93d765148ec0ee69924a8b0f1cd62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 34/98] fix: loaded two-dimensional tables are saved as
 one-dimensional ones

---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index d0de92a..11f0bcb 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -616,9 +616,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         Logging::Get("proposal.interpolant")->error("Can not open file for writing");
         return 0;
     }
-    bool D2 = false;
-    if (function2d_ != NULL)
-        D2 = true;
+    bool D2 = !Interpolant_.empty();
 
     if (binary_tables)
     {
-- 
2.43.0


From 082eaa4035528406e2f49eda9220eb2a55a5bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 35/98] fix: truncated interpolation tables are used instead of
 refused

---
 src/PROPOSAL/PROPOSAL/math/Interpolant.h      |  2 ++
 .../detail/PROPOSAL/math/Interpolant.cxx      | 33 +++++++++++++++++--
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Interpolant.h b/src/PROPOSAL/PROPOSAL/math/Interpolant.h
index cc56022..acb044d 100644
--- a/src/PROPOSAL/PROPOSAL/math/Interpolant.h
+++ b/src/PROPOSAL/PROPOSAL/math/Interpolant.h
@@ -194,6 +194,8 @@ private:
 
     double FunctionInt(double x);
 
+    bool Read(std::ifstream& in, bool binary_tables);
+
     //----------------------------------------------------------------------------//
 
 public:
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index 11f0bcb..9305e78 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -757,7 +757,20 @@ bool Interpolant::Load(std::string Path, bool binary_tables)
 
 bool Interpolant::Load(std::ifstream& in, bool binary_tables)
 {
-    bool D2;
+    Interpolant table;
+    if (!table.Read(in, binary_tables))
+        return 0;
+
+    swap(table);
+    return 1;
+}
+
+//----------------------------------------------------------------------------//
+//----------------------------------------------------------------------------//
+
+bool Interpolant::Read(std::ifstream& in, bool binary_tables)
+{
+    bool D2 = false;
 
     int max;
     double xmin, xmax;
@@ -785,6 +798,9 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
             in.read(reinterpret_cast<char*>(&relativeY), sizeof relativeY);
             in.read(reinterpret_cast<char*>(&logSubst), sizeof logSubst);
 
+            if (!in.good())
+                return 0;
+
             InitInterpolant(
                 max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
@@ -797,7 +813,8 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
                 if (!in.good())
                     return 0;
                 Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
+                if (!Interpolant_.at(i)->Read(in, binary_tables))
+                    return 0;
                 Interpolant_.at(i)->self_ = false;
             }
 
@@ -817,6 +834,9 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
             in.read(reinterpret_cast<char*>(&relativeY), sizeof relativeY);
             in.read(reinterpret_cast<char*>(&logSubst), sizeof logSubst);
 
+            if (!in.good())
+                return 0;
+
             InitInterpolant(
                 max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
@@ -840,6 +860,9 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
             in >> romberg >> rational >> relative >> isLog;
             in >> rombergY >> rationalY >> relativeY >> logSubst;
 
+            if (!in.good())
+                return 0;
+
             InitInterpolant(
                 max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
@@ -851,7 +874,8 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
                 if (!in.good())
                     return 0;
                 Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
+                if (!Interpolant_.at(i)->Read(in, binary_tables))
+                    return 0;
                 Interpolant_.at(i)->self_ = false;
             }
 
@@ -863,6 +887,9 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
             in >> romberg >> rational >> relative >> isLog;
             in >> rombergY >> rationalY >> relativeY >> logSubst;
 
+            if (!in.good())
+                return 0;
+
             InitInterpolant(
                 max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
-- 
2.43.0


From 8cb0aa9158839789ef262767a6386ace87acc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 36/98] fix: failed writes of interpolation tables are not
 reported

---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index 9305e78..4dcfd85 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -600,10 +600,10 @@ bool Interpolant::Save(std::string Path, bool binary_tables)
         }
     }
 
-    Save(out, binary_tables);
+    bool success = Save(out, binary_tables);
 
     out.close();
-    return 1;
+    return success && out.good();
 }
 
 //----------------------------------------------------------------------------//
@@ -724,7 +724,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         }
     }
     out.flush();
-    return 1;
+    return out.good();
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From b500ffd7aa5dc5610e1a5c5395a6d950fdb50234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 37/98] fix: interpolation tables lose precision in text files

---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index 4dcfd85..6ffafde 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -581,8 +581,6 @@ bool Interpolant::Save(std::string Path, bool binary_tables)
 
         out.open(ss.str().c_str());
 
-        out.precision(16);
-
         if (!out.good())
         {
             Logging::Get("proposal.interpolant")->error("Can not open file %s for writing", Path.c_str());
@@ -686,6 +684,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         }
     } else
     {
+        out.precision(17);
         out << D2 << std::endl;
 
         if (D2)
-- 
2.43.0


From 45edd968b4b22ea8c33e99eba7501e3c15b8bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:13 +0000
Subject: [PATCH 38/98] fix: nearest neighbour interpolation of arrays fails at
 the last node

---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index 6ffafde..ac2473c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -198,7 +198,7 @@ double Interpolant::InterpolateArray(double x)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -254,7 +254,7 @@ double Interpolant::InterpolateArray(double x1, double x2)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -361,7 +361,7 @@ double Interpolant::FindLimit(double y)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -494,7 +494,7 @@ double Interpolant::FindLimit(double x1, double y)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
-- 
2.43.0


From d3a8d3f1c97a9cb4eaad61dc4bd089da550e656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:43 +0000
Subject: [PATCH 39/98] fix: bremsstrahlung photon directions reseed the global
 random stream

---
 .../parametrization/bremsstrahlung/BremsKochMotz.cxx  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
index 83b381e..ea9c9f8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
@@ -1,9 +1,9 @@
 #include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
 #include "PROPOSAL/Constants.h"
-#include "PROPOSAL/math/RandomGenerator.h"
 #include <cmath>
 #include <algorithm>
 #include <limits>
+#include <random>
 
 using namespace PROPOSAL;
 
@@ -35,8 +35,9 @@ secondaries::BremsKochMotz::CalculateDirections(
         const Component& c, std::vector<double>& rnd){
     // We do not know in advance how many random numbers we need, so use one
     // passed random number to set the seed for a RNG to keep reproducibility
-    RandomGenerator internal_rnd_generator;
-    internal_rnd_generator.SetSeed(std::numeric_limits<int>::max() * rnd[0]);
+    std::mt19937 internal_rng(
+            static_cast<int>(std::numeric_limits<int>::max() * rnd[0]));
+    std::uniform_real_distribution<double> internal_uniform(0., 1.);
 
     // Based on "Improved bremsstrahlung photon angular sampling in the EGS4
     // code system" (PIRS-0203), algorithm given in chapter (2.1)
@@ -45,10 +46,10 @@ secondaries::BremsKochMotz::CalculateDirections(
     auto Z = c.GetNucCharge();
     double phi, x_hat, g_max;
     do {
-        phi = CalculatePhiCandidate(E_0, internal_rnd_generator.RandomDouble());
+        phi = CalculatePhiCandidate(E_0, internal_uniform(internal_rng));
         x_hat = std::pow(E_0 * phi, 2);
         g_max = N(E, E_0, Z) * g(x_hat, E, E_0, Z);
-    } while (internal_rnd_generator.RandomDouble() > g_max);
+    } while (internal_uniform(internal_rng) > g_max);
     auto cosphi = std::cos(phi);
     auto theta = rnd[1] * 2. * PI;
     auto dir_photon = Cartesian3D(init_direction);
-- 
2.43.0


From 234d2e84d2333bcf367ad4c5224b397598ef4054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:17 +0000
Subject: [PATCH 40/98] fix: decay channels with equal branching ratio
 overwrite and leak each other

---
 src/PROPOSAL/PROPOSAL/decay/DecayTable.h          | 2 +-
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
index a4d9640..bbb05cf 100644
--- a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
+++ b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
@@ -42,7 +42,7 @@ void swap(DecayTable&, DecayTable&);
 
 class DecayTable
 {
-    typedef std::map<double, DecayChannel*> DecayMap;
+    typedef std::multimap<double, DecayChannel*> DecayMap;
 
 public:
     DecayTable();
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 5c1bf5e..16333f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -28,7 +28,7 @@ DecayTable::DecayTable(const DecayTable& table)
 
     for (DecayMap::const_iterator iter = table.channels_.begin(); iter != table.channels_.end(); ++iter)
     {
-        channels_[iter->first] = iter->second->clone();
+        channels_.emplace(iter->first, iter->second->clone());
     }
 }
 
@@ -136,13 +136,13 @@ void DecayTable::SetStable()
 
     // TODO(mario): Find better way Wed 2017/08/23
     // A stable channel which alwas will be selected
-    channels_[1.1] = new StableChannel();
+    channels_.emplace(1.1, new StableChannel());
 }
 
 // ------------------------------------------------------------------------- //
 DecayTable& DecayTable::addChannel(double Br, const DecayChannel& dc)
 {
-    channels_[Br] = dc.clone();
+    channels_.emplace(Br, dc.clone());
     return *this;
 }
 
-- 
2.43.0


From 35d11e2203bd9bd4bb4babd99f021f5f0be49d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:17 +0000
Subject: [PATCH 41/98] fix: decay channels with different daughters or method
 compare equal

---
 src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx | 2 ++
 src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx   | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
index f148dc7..446804c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
@@ -54,6 +54,8 @@ bool LeptonicDecayChannelApprox::compare(const DecayChannel& channel) const
 
     if (!leptonic)
         return false;
+    else if (GetName() != leptonic->GetName())
+        return false;
     else if (massive_lepton_ != leptonic->massive_lepton_)
         return false;
     else if (neutrino_ != leptonic->neutrino_)
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
index 23403ab..f05c026 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
@@ -85,6 +85,12 @@ bool ManyBodyPhaseSpace::compare(const DecayChannel& channel) const
     {
         return false;
     } else if (daughter_masses_ != many_body->daughter_masses_)
+    {
+        return false;
+    } else if (!std::equal(daughters_.begin(), daughters_.end(), many_body->daughters_.begin(),
+                   [](const std::shared_ptr<const ParticleDef>& lhs, const std::shared_ptr<const ParticleDef>& rhs) {
+                       return *lhs == *rhs;
+                   }))
     {
         return false;
     } else if (uniform_ != many_body->uniform_)
-- 
2.43.0


From 9e358e0344631719a20b3402df5e35889c0792e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:34 +0000
Subject: [PATCH 42/98] fix: direction of decay products at rest is not a
 number

---
 src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
index 41c92a2..9c3ad1c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
@@ -64,10 +64,14 @@ void DecayChannel::Boost(ParticleState& particle, const Vector3D& direction_unno
     momentum_vec = momentum_vec + direction_correction * direction;
 
     // Energy will be implicit corrected with respect to the mass:
-    particle.SetMomentum(momentum_vec.magnitude());
+    double momentum = momentum_vec.magnitude();
+    particle.SetMomentum(momentum);
 
-    momentum_vec.normalize();
-    particle.direction = momentum_vec;
+    if (momentum > 0.0) // a particle at rest keeps its direction
+    {
+        momentum_vec.normalize();
+        particle.direction = momentum_vec;
+    }
 }
 
 // ------------------------------------------------------------------------- //
-- 
2.43.0


From b03b5d742dfbc17791248dc58437467d1763a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:34 +0000
Subject: [PATCH 43/98] fix: many body decays into a massless subsystem are not
 a number

---
 .../detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
index f05c026..9d431c4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
@@ -177,6 +177,18 @@ void ManyBodyPhaseSpace::GenerateEvent(std::vector<ParticleState>& products, con
         // Boost previous particles to new frame
 
         double M = kinematics.virtual_masses[i - 1];
+
+        if (M <= 0.0)
+        {
+            // no rest frame: the previous, massless particles are collinear
+            for (unsigned int s = 0; s < i; ++s)
+            {
+                products[s].direction = -products[i].direction;
+                products[s].SetMomentum(momentum / i);
+            }
+            continue;
+        }
+
         // double beta = momentum / std::sqrt(momentum * momentum + M * M);
         double gamma = std::sqrt(momentum * momentum + M * M) / M;
         double betagamma = momentum / M;
-- 
2.43.0


From 231da05367fff2c8d6684b46f320ba6a8eb0a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 44/98] fix: paraffin contains oxygen instead of hydrogen

---
 src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
index f2f2589..fddff05 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
@@ -421,7 +421,7 @@ Paraffin::Paraffin()
           0,        // d0
           0.93,     // massDensity
           {Components::Carbon(25.0),
-           Components::Oxygen(52.0)}) {}
+           Components::Hydrogen(52.0)}) {}
 
 AntaresWater::AntaresWater()
     : Medium("antareswater",
-- 
2.43.0


From 60a8ce5d9543b0974723c7877a7b6c47ab13178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 45/98] fix: staus are not found by their particle type

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index c567841..788a11a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -275,6 +275,8 @@ std::unordered_map<int, ParticleDef> ParticleDef::create_particle_map() {
         { static_cast<int>(ParticleType::K0), K0Def() },
         { static_cast<int>(ParticleType::KPlus), KPlusDef() },
         { static_cast<int>(ParticleType::KMinus), KMinusDef() },
+        { static_cast<int>(ParticleType::STauMinus), StauMinusDef() },
+        { static_cast<int>(ParticleType::STauPlus), StauPlusDef() },
         { static_cast<int>(ParticleType::Monopole), MonopoleDef() },
         { static_cast<int>(ParticleType::SMPPlus), SMPPlusDef() },
         { static_cast<int>(ParticleType::SMPMinus), SMPMinusDef() }};
-- 
2.43.0


From 3f3da3765b268964b6e0ebabda739377df77910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 46/98] fix: building a particle definition changes its builder

---
 src/PROPOSAL/PROPOSAL/particle/ParticleDef.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/particle/ParticleDef.h b/src/PROPOSAL/PROPOSAL/particle/ParticleDef.h
index f36a4d9..228e3da 100644
--- a/src/PROPOSAL/PROPOSAL/particle/ParticleDef.h
+++ b/src/PROPOSAL/PROPOSAL/particle/ParticleDef.h
@@ -247,11 +247,10 @@ public:
     ParticleDef build()
     {
 
-        if (low < mass) {
-            low = mass;
-        }
+        // do not change the builder itself, it might be used again
+        const double low_or_mass = (low < mass) ? mass : low;
 
-        return ParticleDef(name, mass, low, lifetime, charge,
+        return ParticleDef(name, mass, low_or_mass, lifetime, charge,
             *hard_component_table, decay_table, particle_type, weak_partner);
     }
 
-- 
2.43.0


From 829f9aff55389208478b82dae26600fbc0f75061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 47/98] fix: media and components with different names share
 their hash

---
 src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx | 2 +-
 src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
index a4afe7a..14c519d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
@@ -54,7 +54,7 @@ Component::Component(
     }
 
     hash = 0;
-    hash_combine(hash, nucCharge_, atomicNum_, atomInMolecule_,
+    hash_combine(hash, name_, nucCharge_, atomicNum_, atomInMolecule_,
                  logConstant_, bPrime_, averageNucleonWeight_, wood_saxon_);
 
     if (!component_map)
diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
index fddff05..b4dec4e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
@@ -201,7 +201,7 @@ void Medium::init() {
 size_t Medium::GetHash() const noexcept
 {
     size_t hash_digest = 0;
-    hash_combine(hash_digest, numComponents_, sumCharge_, ZA_, I_, C_, a_, m_,
+    hash_combine(hash_digest, name_, numComponents_, sumCharge_, ZA_, I_, C_, a_, m_,
         X0_, X1_, d0_, massDensity_, molDensity_, radiationLength_, MM_,
         sumNucleons_);
     for (auto component : components_)
-- 
2.43.0


From f6a8d6c6591e5ae2d8f2c1eabfe02982d79df16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 48/98] fix: looking up a hash before any medium or component
 exists crashes

---
 src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx | 8 +++++---
 src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx     | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
index 14c519d..55d9d9b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
@@ -261,9 +261,11 @@ double Component::WoodSaxonPotential(double r0)
 }
 
 Component Component::GetComponentForHash(size_t hash) {
-    auto it = Component::component_map->find(hash);
-    if (it != Component::component_map->end())
-        return it->second;
+    if (component_map) {
+        auto it = Component::component_map->find(hash);
+        if (it != Component::component_map->end())
+            return it->second;
+    }
     throw std::invalid_argument("Component for given hash not registered");
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
index b4dec4e..b7021f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
@@ -210,9 +210,11 @@ size_t Medium::GetHash() const noexcept
 }
 
 Medium Medium::GetMediumForHash(size_t hash) {
-    auto it = Medium::medium_map->find(hash);
-    if (it != Medium::medium_map->end())
-        return it->second;
+    if (medium_map) {
+        auto it = Medium::medium_map->find(hash);
+        if (it != Medium::medium_map->end())
+            return it->second;
+    }
     throw std::invalid_argument("Medium for given hash not registered");
 }
 
-- 
2.43.0


From f143bb240106759b446f45131015826e7716f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 49/98] fix: both matrix elements of a leptonic decay are the
 same decay channel again

---
 src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
index 446804c..f148dc7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
@@ -54,8 +54,6 @@ bool LeptonicDecayChannelApprox::compare(const DecayChannel& channel) const
 
     if (!leptonic)
         return false;
-    else if (GetName() != leptonic->GetName())
-        return false;
     else if (massive_lepton_ != leptonic->massive_lepton_)
         return false;
     else if (neutrino_ != leptonic->neutrino_)
-- 
2.43.0


From 4e6dacc76427231b197ba74acf5148dd03fd40b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 50/98] fix: energy cuts that are not a number are accepted

---
 src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx b/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
index c9747e4..d6d0cd4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
@@ -20,13 +20,13 @@ EnergyCutSettings::EnergyCutSettings(
     , vcut_(vcut)
     , continuous_randomization_(continuous_randomization)
 {
-    if (ecut_ <= 0)
+    if (!(ecut_ > 0))
         throw std::invalid_argument(
             "Absolut EnergyCut (ecut) must be larger > 0! \nINFO: If a ecut = "
             "std::numeric_limits<double>::infinity() is set the particle will "
             "only propagated continously. ");
 
-    if (vcut_ <= 0 || vcut_ > 1)
+    if (!(vcut_ > 0 && vcut_ <= 1))
         throw std::invalid_argument(
             "Relative EnergyCut (vcut) must be between (0, 1]. \nINF0: If a vc"
             "ut = 1 is set, the particle is only propagate continous.");
-- 
2.43.0


From 9b62894b5369ad7429da70899fe3899604230d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 51/98] fix: bremsstrahlung cross section negative close to
 v_max

---
 .../crosssection/parametrization/Bremsstrahlung.cxx         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
index c308bf5..b0eafbc 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
@@ -99,7 +99,8 @@ double crosssection::Bremsstrahlung::DifferentialCrossSection(
     // \frac{m_e}{m_{particle}})^2$ is the typical Bremsstrahlung prefactor used
     // in every Parametrization
 
-    auto result = CalculateParametrization(p_def, comp, energy, v);
+    // the formulae turn negative outside their range of validity close to v_max
+    auto result = std::max(CalculateParametrization(p_def, comp, energy, v), 0.);
 
     auto aux = 2 * p_def.charge * p_def.charge * (ME / p_def.mass) * RE
         * comp.GetNucCharge();
@@ -468,7 +469,8 @@ double crosssection::BremsElectronScreening::DifferentialCrossSection(
     const ParticleDef& p_def, const Component& comp, double energy,
     double v) const
 {
-    auto result = CalculateParametrization(p_def, comp, energy, v);
+    // the formulae turn negative outside their range of validity close to v_max
+    auto result = std::max(CalculateParametrization(p_def, comp, energy, v), 0.);
 
     auto aux = p_def.charge * p_def.charge * (ME / p_def.mass) * RE;
     aux *= aux * (ALPHA / v) * result;
-- 
2.43.0


From 317d5a497d229ba7f5f148c59146c1bab154f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 52/98] fix: knock-on electron cross section negative or
 infinite close to v_max

---
 .../PROPOSAL/crosssection/parametrization/Ionization.cxx       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
index 640f0ce..4c0f53c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
@@ -103,7 +103,8 @@ double crosssection::IonizBetheBlochRossi::DifferentialCrossSection(
         * calculate_proton_massnumber_fraction(medium.GetComponents())
         / (2 * beta * energy * v * v);
 
-    return result * (1 + InelCorrection(p_def, medium, energy, v));
+    // the correction diverges logarithmically to -infinity for v -> v_max
+    return result * std::max(0., 1 + InelCorrection(p_def, medium, energy, v));
 }
 
 // ------------------------------------------------------------------------- //
-- 
2.43.0


From d63f2e648819b7db33096f91ff845cf2a00c042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 53/98] fix: real photon photonuclear cross section negative
 for heavy particles

---
 .../crosssection/parametrization/PhotoRealPhotonAssumption.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
index cd5dc2a..6ce11ab 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.cxx
@@ -92,7 +92,8 @@ double crosssection::PhotoRealPhotonAssumption::DifferentialCrossSection(
         aux += comp.GetAtomicNum() * 1.e-30
             * SoftComponent().CalculateHardComponent(energy, v);
 
-    return NA / comp.GetAtomicNum() * p_def.charge * p_def.charge * aux;
+    // the formula turns negative for t >> m1 (heavy particles, v -> 1)
+    return NA / comp.GetAtomicNum() * p_def.charge * p_def.charge * std::max(aux, 0.);
 }
 
 double crosssection::PhotoRealPhotonAssumption::CalculateParametrization(
-- 
2.43.0


From 70daf0cc862ea838e394cfef9fca307f1b5b1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 54/98] fix: Koch-Motz pair production cross section negative
 at low energies

---
 .../crosssection/parametrization/PhotoPairProduction.cxx  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 20a4073..794b038 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -115,18 +115,20 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSection(
         const ParticleDef& p, const Component& comp, double energy, double v) const
 {
     if (energy > 50)
-        return DifferentialCrossSectionWithoutA(p, comp, energy, v);
+        return std::max(DifferentialCrossSectionWithoutA(p, comp, energy, v), 0.);
 
     // Correction factor A for low energies given by the Storm and Israel data
     // (doi.org/10.1016/S0092-640X(70)80017-1)
+    // The formula only gives the shape here: below a few MeV it is negative in
+    // parts or all of the range, so that its modulus is used and normalized.
     auto limits = PhotoPairProduction::GetKinematicLimits(p, comp, energy);
     Integral i;
     auto integrand = [this, &p, &comp, energy](double v) {
-        return this->DifferentialCrossSectionWithoutA(p, comp, energy, v) / NA * comp.GetAtomicNum() / (1e-24);
+        return std::abs(this->DifferentialCrossSectionWithoutA(p, comp, energy, v)) / NA * comp.GetAtomicNum() / (1e-24);
     };
     auto dNdx_nocorrection = i.Integrate(limits.v_min, limits.v_max, integrand, 3);
     auto A = interpolant_->InterpolateArray(comp.GetNucCharge(), energy) / dNdx_nocorrection;
-    return A * DifferentialCrossSectionWithoutA(p, comp, energy, v);
+    return A * std::abs(DifferentialCrossSectionWithoutA(p, comp, energy, v));
 }
 
 double crosssection::PhotoPairKochMotz::DifferentialCrossSectionWithoutA(
-- 
2.43.0


From 8faefb41bcfbfadd4fb98268eaa1d68fe7e24957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 55/98] fix: photonuclear losses of heavy particles may exceed
 the kinetic energy

---
 .../PROPOSAL/crosssection/parametrization/Photonuclear.cxx   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
index 1cdca73..eae439f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
@@ -81,10 +81,11 @@ crosssection::KinematicLimits crosssection::Photonuclear::GetKinematicLimits(
         kin_lim.v_max
             -= comp.GetAverageNucleonWeight() * (1 + aux * aux) / (2 * energy);
     }
-    // vMax calculated above is always smaller than 1-m/E
+    // for light particles, vMax calculated above is always smaller than 1-m/E
     // in comparison, the following inequality arise
     // (M-m)^2 >= 0
-    // limits.vMax = std::min(limits.vMax, 1 - p_def.mass/energy);
+    // for all other particles, this limit has to be imposed
+    kin_lim.v_max = std::min(kin_lim.v_max, 1 - p_def.mass / energy);
     if (kin_lim.v_max < kin_lim.v_min)
         kin_lim.v_max = kin_lim.v_min;
     return kin_lim;
-- 
2.43.0


From 9ed9bcd03e413692c313817ff3a7be86d3d13e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 56/98] fix: WeakInteraction::GetKinematicLimits returned v_min
 above v_max at low energies

---
 .../PROPOSAL/crosssection/parametrization/WeakInteraction.cxx    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
index aa41e08..5fba05c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
@@ -27,6 +27,7 @@ crosssection::KinematicLimits crosssection::WeakInteraction::GetKinematicLimits(
     auto kin_lim = KinematicLimits();
     kin_lim.v_min = 1e6 / (aux); // q^2_min = 1e6 MeV for experimental reasons
     kin_lim.v_max = 1.f;
+    kin_lim.v_min = std::min(kin_lim.v_min, kin_lim.v_max);
     return kin_lim;
 }
 
-- 
2.43.0


From 95461c254adbc8da377c8341262efca073aeb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 57/98] fix: PhotoPairKochMotz diverged right at the threshold

---
 .../crosssection/parametrization/PhotoPairProduction.cxx        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 794b038..e57f2ce 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -127,6 +127,8 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSection(
         return std::abs(this->DifferentialCrossSectionWithoutA(p, comp, energy, v)) / NA * comp.GetAtomicNum() / (1e-24);
     };
     auto dNdx_nocorrection = i.Integrate(limits.v_min, limits.v_max, integrand, 3);
+    if (!(dNdx_nocorrection > 0))
+        return 0.; // phase space too small to be integrated, right at threshold
     auto A = interpolant_->InterpolateArray(comp.GetNucCharge(), energy) / dNdx_nocorrection;
     return A * std::abs(DifferentialCrossSectionWithoutA(p, comp, energy, v));
 }
-- 
2.43.0


From 5aa9fa17e7c27f0d33d81757ba426de51ad9f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 58/98] fix: Photoeffect rate for a single target was NaN at
 and below the K-shell energy

---
 .../PROPOSAL/crosssection/parametrization/Photoeffect.cxx     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
index 8151cf8..4021b0c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
@@ -45,6 +45,8 @@ double crosssection::Photoeffect::PhotonAtomCrossSection(double energy, const Co
 double crosssection::Photoeffect::CalculatedNdx(
         double energy, size_t comp_hash, const ParticleDef&, const Medium& m, cut_ptr) {
         auto comp = Component::GetComponentForHash(comp_hash);
+        if (energy <= GetCutOff(comp))
+            return 0.;
         auto weight = detail::weight_component(m, comp);
         return NA / comp.GetAtomicNum() * PhotonAtomCrossSection(energy, comp) / weight;
 }
@@ -92,6 +94,8 @@ double crosssection::PhotoeffectSauter::PhotoeffectKshellCrossSection(double ene
     double I = pow(comp.GetNucCharge() * ALPHA, 2) * ME / 2; // ionization energy of K-shell electron
     auto gamma = 1 + (energy - I) / ME;
     auto gamma_beta = sqrt(gamma * gamma - 1);
+    if (!(gamma_beta > 0))
+        return 0.; // at (or below) the ionization energy
 
     auto sigma = 1.5 * sigma_T * pow(comp.GetNucCharge(), 5) * pow(ALPHA, 4) * pow(ME / energy, 5)
         * pow(gamma_beta, 3) * (4/3.0 + gamma * (gamma - 2) / (gamma + 1)
-- 
2.43.0


From d0e467a027fa64959a3ae1ac9671481e8459b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 59/98] fix: rates ignored a component listed more than once in
 a medium

---
 src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
index 6ab98eb..4e6e553 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
@@ -103,6 +103,13 @@ namespace detail {
             auto comp_hash = c.GetHash();
             auto weight = weight_component(m, c);
             auto calc = make_dndx(interpol, param, p, c, cut, hash);
+            auto it = dndx_map->find(comp_hash);
+            if (it != dndx_map->end()) {
+                // the medium lists this component more than once
+                auto& w = std::get<0>(it->second);
+                w = 1. / (1. / w + 1. / weight);
+                continue;
+            }
             dndx_map->emplace(
                 comp_hash, std::make_tuple(weight, std::move(calc)));
         }
-- 
2.43.0


From 713e4fb845df899d9153d1f190a8dfbdd8a32205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 60/98] fix: asking a cross section for the rate of an unknown
 target dereferenced a null pointer

---
 src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
index 4e6e553..3724797 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
@@ -283,8 +283,8 @@ protected:
     double CalculateStochasticLoss_impl(
         size_t target_hash, double E, double rate, std::false_type)
     {
-        return std::get<1>((*dndx)[target_hash])
-            ->GetUpperLimit(E, rate * std::get<0>((*dndx)[target_hash]));
+        return std::get<1>(dndx->at(target_hash))
+            ->GetUpperLimit(E, rate * std::get<0>(dndx->at(target_hash)));
     }
 
     double CalculateStochasticLoss_impl(size_t, double, double, std::true_type)
@@ -307,8 +307,8 @@ public:
     double CalculatedNdx(double E, size_t target_hash) override
     {
         if (dndx)
-            return std::get<1>((*dndx)[target_hash])->Calculate(E)
-                / std::get<0>((*dndx)[target_hash]);
+            return std::get<1>(dndx->at(target_hash))->Calculate(E)
+                / std::get<0>(dndx->at(target_hash));
         return 0.;
     };
 
@@ -316,8 +316,8 @@ public:
         double E, size_t hash, double v) override
     {
         if (dndx)
-            return std::get<1>((*dndx)[hash])->Calculate(E, v)
-                / std::get<0>((*dndx)[hash]);
+            return std::get<1>(dndx->at(hash))->Calculate(E, v)
+                / std::get<0>(dndx->at(hash));
         return 0.;
     }
 
-- 
2.43.0


From eff85e9f7da467a760329d03515b09c8388e6de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:02 +0000
Subject: [PATCH 61/98] fix: dE2dx of Compton scattering was off by up to 40%
 at high energies (peak of the integrand missed)

---
 .../CrossSectionDE2DXIntegral.h               |  5 ++++
 .../CrossSectionDE2DXIntegral.cxx             | 24 +++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h
index bae2b5b..af5b6d2 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h
@@ -8,6 +8,7 @@
 namespace PROPOSAL {
 namespace crosssection {
     template <typename T> class Parametrization;
+    struct ComptonKleinNishina;
 } // namespace crosssection
 struct ParticleDef;
 class Medium;
@@ -25,6 +26,10 @@ namespace detail {
     std::function<double(double)> define_de2dx_integral(
         crosssection::Parametrization<Component> const&, ParticleDef const&,
         Component const&, EnergyCutSettings const&);
+
+    std::function<double(double)> define_de2dx_integral(
+        crosssection::ComptonKleinNishina const&, ParticleDef const&,
+        Component const&, EnergyCutSettings const&);
 } // namespace detail
 } // namespace PROPOSAL
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx
index 2571b3b..baf46ec 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx
@@ -1,10 +1,13 @@
 #include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h"
 #include "PROPOSAL/EnergyCutSettings.h"
+#include "PROPOSAL/crosssection/parametrization/Compton.h"
 #include "PROPOSAL/crosssection/parametrization/Parametrization.h"
 #include "PROPOSAL/math/Integral.h"
 #include "PROPOSAL/medium/Components.h"
 #include "PROPOSAL/medium/Medium.h"
 #include "PROPOSAL/particle/ParticleDef.h"
+#include <cmath>
+#include <memory>
 
 using namespace PROPOSAL;
 
@@ -39,6 +42,27 @@ namespace detail {
     {
         return _define_de2dx_integral(param, p, c, cut);
     }
+
+    std::function<double(double)> define_de2dx_integral(
+        crosssection::ComptonKleinNishina const& param, ParticleDef const& p,
+        Component const& c, EnergyCutSettings const& cut)
+    {
+        auto param_ptr = std::shared_ptr<crosssection::Parametrization<Component>>(param.clone());
+        return [param_ptr, p, c, cut](double E) {
+            // Integrate with the substitution t = ln(1-v), the integrand peaks
+            // at v_max
+            auto i = Integral();
+            auto lim = param_ptr->GetKinematicLimits(p, c, E);
+            auto v_cut = cut.GetCut(lim, E);
+            double t_min = std::log(1. - v_cut);
+            double t_max = std::log(1. - lim.v_min);
+            auto dE2dx = [ptr = param_ptr.get(), &p, &c, E](double t) {
+                return std::exp(t)
+                    * ptr->FunctionToDE2dxIntegral(p, c, E, 1 - std::exp(t));
+            };
+            return i.Integrate(t_min, t_max, dE2dx, 2);
+        };
+    }
 } // namespace detail
 } // namespace PROPOSAL
 
-- 
2.43.0


From c2642578fcc7db750ccf7fa10fe6f7654e334985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 62/98] fix: integration over an interval of a few
 representable numbers terminates

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index f0ef838..89ae158 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -668,7 +668,10 @@ double Integral::Trapezoid(int n, double oldSum)
     stepSize  = (max_ - min_) / n;
     resultSum = 0;
 
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    // the number of points is fixed: adding a step that is lost in rounding
+    // would never reach the end of a tiny interval
+    xStep = min_ + stepSize / 2;
+    for (int i = 0; i < n && xStep < max_; ++i, xStep += stepSize)
     {
         resultSum += Function(xStep);
     }
@@ -691,7 +694,10 @@ double Integral::Trapezoid3(int n, double oldSum)
     stepSize  = (max_ - min_) / n;
     resultSum = 0;
 
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    // the number of points is fixed: adding a step that is lost in rounding
+    // would never reach the end of a tiny interval
+    xStep = min_ + stepSize / 2;
+    for (int i = 0; i < n / 3 && xStep < max_; ++i, xStep += stepSize)
     {
         resultSum += Function(xStep);
         xStep += 2 * stepSize;
@@ -733,7 +739,10 @@ double Integral::Trapezoid3S(int n, double oldSum, int stepNumber)
     }
     resultSum = 0;
     flag      = false;
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    // the number of points is fixed: adding a step that is lost in rounding
+    // would never reach the end of a tiny interval
+    xStep = min_ + stepSize / 2;
+    for (int i = 0; i < n / 3 && xStep < max_; ++i, xStep += stepSize)
     {
         resultSum += functionValue1 = Function(xStep);
         xStep += 2 * stepSize;
-- 
2.43.0


From 1fc3c9163478332a9259ea3d81894234863d1a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 63/98] fix: interpolated utility integral between equal
 energies is zero, also at rest where the integrand is infinite

---
 .../propagation_utility/PropagationUtilityInterpolant.cxx      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
index 6ea0017..b4d6232 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
@@ -66,6 +66,9 @@ double UtilityInterpolant::Calculate(double energy_initial, double energy_final)
     assert(energy_initial >= energy_final);
     assert(energy_final >= lower_lim);
 
+    if (energy_initial == energy_final)
+        return 0.;
+
     if (energy_initial - energy_final < energy_initial * IPREC)
         return FunctionToIntegral((energy_initial + energy_initial) / 2)
             * (energy_final - energy_initial);
-- 
2.43.0


From 045d74c4587a37114cc1181f5e1683de01e95695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:20 +0000
Subject: [PATCH 64/98] fix: a random number just below one samples the last
 interaction instead of failing by rounding

---
 .../PROPOSAL/propagation_utility/Interaction.cxx     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
index 2eb8352..1b56108 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
@@ -2,6 +2,7 @@
 #include "PROPOSAL/crosssection/CrossSection.h"
 #include "PROPOSAL/propagation_utility/Displacement.h"
 
+#include <algorithm>
 #include <sstream>
 #include <numeric>
 
@@ -54,6 +55,17 @@ Interaction::Loss Interaction::SampleLoss(
         return {InteractionType::Undefined, 0, 0};
     }
 
+    // sum and successive differences of the rates are rounded differently: a
+    // random number just below one belongs to the last possible interaction
+    if (rnd < 1.) {
+        auto last = std::find_if(rates.rbegin(), rates.rend(),
+            [](Rate const& r) { return r.rate > 0.; });
+        if (last != rates.rend())
+            return { last->crosssection->GetInteractionType(), last->comp_hash,
+                last->crosssection->CalculateStochasticLoss(
+                    last->comp_hash, energy, 0.) };
+    }
+
     std::stringstream ss;
     ss << "Given rate (" << std::to_string(sampled_rate)
        << ") for given energy (" << std::to_string(energy)
-- 
2.43.0


From b6194dc382feaf689ec66eff8e7d8167743f5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 65/98] fix: propagation outside of every sector throws instead
 of dereferencing the end of the sector list

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index e6f88c2..55c4669 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -349,6 +349,7 @@ Sector Propagator::GetCurrentSector(
                                                       spherical_position.GetX(),
                                                       spherical_position.GetY(),
                                                       spherical_position.GetZ());
+        throw std::logic_error("No sector defined at particle position.");
     }
     auto highest_sector_iter = std::max_element(
         potential_sec.begin(), potential_sec.end(), [](Sector* a, Sector* b) {
-- 
2.43.0


From f8709b7ebdc2c140e6263141a4294485493b655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:08 +0000
Subject: [PATCH 66/98] fix: a particle below the energy limit is not
 propagated backwards until it has reached the limit

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 55c4669..ce63da3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -77,6 +77,10 @@ Secondaries Propagator::Propagate(const ParticleState& initial_particle,
 
         InteractionEnergy[MinimalE] = std::max(
                 min_energy, utility.collection.displacement_calc->GetLowerLim());
+        // The particle can start with, or enter a sector with, an energy that is
+        // already below the energy limit: there is nothing left to propagate
+        if (state.energy < InteractionEnergy[MinimalE])
+            break;
         InteractionEnergy[Decay] = utility.EnergyDecay(
             state.energy, rnd, density->Evaluate(state.position));
         InteractionEnergy[Stochastic]
-- 
2.43.0


From e265423248a1fd18bb89dbbb36014c1fe738a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 67/98] fix: scattering back into an enclosed sector at its
 border uses the physics of that sector

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index ce63da3..2d9bbf8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -238,6 +238,13 @@ int Propagator::AdvanceParticle(ParticleState &state,
         // Check step
         double distance_to_border = CalculateDistanceToBorder(state.position, mean_direction, *geometry);
         bool is_inside = geometry->IsInside(state.position, mean_direction);
+        for (auto& sector : sector_list) {
+            // a sector of higher hierarchy takes precedence over the current one
+            auto& other = get<GEOMETRY>(sector);
+            if (other->GetHierarchy() > geometry->GetHierarchy()
+                && other->IsInside(state.position, mean_direction))
+                is_inside = false;
+        }
 
         if (num_steps > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) {
             // too many iteration steps!
-- 
2.43.0


From 49f149b952e1e13adc0b94f5cbddd3f3dfb6401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:51 +0000
Subject: [PATCH 68/98] fix: a sector entered by scattering at its border is
 not asked for energies below its limit

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 2d9bbf8..ea4580c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -155,7 +155,7 @@ Interaction::Loss Propagator::DoStochasticInteraction(ParticleState& p_cond,
 }
 
 int Propagator::AdvanceParticle(ParticleState &state,
-    const double energy_next_interaction, const double final_distance,
+    double energy_next_interaction, const double final_distance,
     std::function<double()> rnd_generator, Sector& current_sector,
     bool min_energy_step, const double min_energy) {
 
@@ -188,6 +188,7 @@ int Propagator::AdvanceParticle(ParticleState &state,
 
     int num_steps = 0; // count number of iteration steps
     bool backscatter = false;
+    bool interaction_in_sector = true;
 
     // Iterate combinations of step lengths and scattering angles until we have
     // reached an interaction, a sector border or the maximal propagation distance
@@ -268,6 +269,13 @@ int Propagator::AdvanceParticle(ParticleState &state,
             utility = get<UTILITY>(new_sector);
             density = get<DENSITY_DISTR>(new_sector);
             geometry = get<GEOMETRY>(new_sector);
+            auto lower_lim = utility.collection.displacement_calc->GetLowerLim();
+            if (energy_next_interaction < lower_lim) {
+                // the new sector does not describe energies down to the one of
+                // the next interaction: stop at its limit and start again
+                energy_next_interaction = std::min(state.energy, lower_lim);
+                interaction_in_sector = false;
+            }
             grammage_next_interaction = utility.LengthContinuous(state.energy, energy_next_interaction);
             energy = energy_next_interaction;
             distance = -1;
@@ -284,7 +292,7 @@ int Propagator::AdvanceParticle(ParticleState &state,
             backscatter = true;
         } else if (distance <= distance_to_border && distance <= max_distance && energy == energy_next_interaction) {
             // reached interaction
-            advancement_type = ReachedInteraction;
+            advancement_type = interaction_in_sector ? ReachedInteraction : ReachedBorder;
         } else if (distance <= distance_to_border && distance == max_distance) {
             // reached max distance
             advancement_type = ReachedMaxDistance;
-- 
2.43.0


From 70f158461d1ca5438a334a35bc9c079cf850f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 69/98] fix: the time of an interpolated track state is
 calculated from the grammage instead of the distance

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 9f4de31..e2f56f0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -310,7 +310,7 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
 
     auto E_f = init.energy - energy_lost;
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
 
@@ -335,7 +335,7 @@ ParticleState Secondaries::RePropagateDistance(const ParticleState& init,
                                                displacement);
     auto E_f = utility.EnergyDistance(init.energy, advance_grammage);
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
     return ParticleState((ParticleType)primary_def_->particle_type, new_position,
-- 
2.43.0


From 8a4a76a0c65c7fd7965ead9ca59c987c7f541068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 70/98] fix: the state for an energy is searched within the
 length of the step instead of its negative

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index e2f56f0..77387f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -93,7 +93,7 @@ ParticleState Secondaries::GetStateForEnergy(double energy) const
                 displacement.normalize();
                 return RePropagateEnergy(
                         track_[i-1], displacement, track_[i-1].energy - energy,
-                        track_[i-1].propagated_distance - track_[i].propagated_distance);
+                        track_[i].propagated_distance - track_[i-1].propagated_distance);
             } else {
                 return track_[i-1];
             }
-- 
2.43.0


From 1dd32b1ba0b6811b02281dcbae8babef181cc40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 71/98] fix: the energy lost in a geometry does not dereference
 missing entry or exit points

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 77387f1..ed6880b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -165,7 +165,15 @@ double Secondaries::GetELost(const Geometry& geometry) const
 {
     auto entry_point = GetEntryPoint(geometry);
     auto exit_point = GetExitPoint(geometry);
-    return entry_point->energy - exit_point->energy;
+    // There is no entry point if the track starts inside, no exit point if it
+    // ends inside, and both are missing if the geometry is never reached
+    auto starts_inside = geometry.IsInside(track_.front().position, track_.front().direction);
+    auto ends_inside = geometry.IsInside(track_.back().position, track_.back().direction);
+    if ((!entry_point && !starts_inside) || (!exit_point && !ends_inside))
+        return 0.;
+    auto energy_initial = entry_point ? entry_point->energy : track_.front().energy;
+    auto energy_final = exit_point ? exit_point->energy : track_.back().energy;
+    return energy_initial - energy_final;
 }
 
 std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
-- 
2.43.0


From 8c764fa3c59248757500224b64446e5ce668ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 72/98] fix: stochastic losses of an unknown interaction name
 throw instead of dereferencing the end of the name map

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index ed6880b..803461e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -10,6 +10,7 @@
 #include "PROPOSAL/math/Cartesian3D.h"
 
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 using std::get;
@@ -438,8 +439,10 @@ std::vector<StochasticLoss> Secondaries::GetStochasticLosses(
                            [&interaction_type](const std::pair<InteractionType, std::string> &p) {
         return p.second == interaction_type;
     });
-    if (it == Type_Interaction_Name_Map.end())
+    if (it == Type_Interaction_Name_Map.end()) {
         Logging::Get("proposal.secondaries")->critical("Could not find interaction type {}", interaction_type);
+        throw std::invalid_argument("Could not find interaction type " + interaction_type);
+    }
 
     return GetStochasticLosses(it->first);
 }
-- 
2.43.0


From eebc2605b8f21eef36acf61511983ac57e28efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 73/98] fix: entry and exit points at recorded points are not
 missed by rounding

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 803461e..009fbe1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -197,8 +197,8 @@ std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
         displacement.normalize();
 
         auto distance = geometry.DistanceToBorder(pos_i, displacement).first;
-        if (distance <= dist_i_f && distance >= 0) {
-            if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
+        if (distance <= dist_i_f + PARTICLE_POSITION_RESOLUTION && distance >= 0) {
+            if (std::abs(dist_i_f - distance) <= PARTICLE_POSITION_RESOLUTION)
                 return std::make_unique<ParticleState>(track_[i+1]);
             auto entry_point = RePropagateDistance(track_[i], displacement,
                                                    distance);
@@ -228,8 +228,8 @@ std::shared_ptr<ParticleState> Secondaries::GetExitPoint(
         displacement.normalize();
 
         auto distance = geometry.DistanceToBorder(pos_f, -displacement).first;
-        if (distance <= dist_i_f && distance >= 0) {
-            if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
+        if (distance <= dist_i_f + PARTICLE_POSITION_RESOLUTION && distance >= 0) {
+            if (std::abs(dist_i_f - distance) <= PARTICLE_POSITION_RESOLUTION)
                 return std::make_unique<ParticleState>(track_[i-1]);
             auto exit_point = RePropagateDistance(
                     track_[i-1], displacement, dist_i_f - distance);
-- 
2.43.0


From 422825886739a59057939463c959bf2e1e559342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 74/98] fix: a track which passes the wall of a hollow geometry
 and ends in its hole has hit it

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 009fbe1..d16a180 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -289,6 +289,11 @@ bool Secondaries::HitGeometry(const Geometry& geometry) const {
         // check if geometry lies between two track points
         if (geometry.IsInfront(pos_a, disp) && geometry.IsBehind(pos_b, disp))
             return true;
+
+        // check if the step passes a wall of the (hollow) geometry
+        auto distance = geometry.DistanceToBorder(pos_a, disp);
+        if (distance.second > 0 && distance.second <= (pos_b - pos_a).magnitude())
+            return true;
     }
 
     // check if last track point is in geometry
-- 
2.43.0


From 388694d57a5730ef250b548db727007ee5f4b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 75/98] fix: the closest approach is the smallest distance of
 the whole track and not the first local one

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 38 ++++++++++++--------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index d16a180..22c46d3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -251,28 +251,38 @@ std::shared_ptr<ParticleState> Secondaries::GetClosestApproachPoint(
    if (track_.size() == 1)
        return std::make_unique<ParticleState>(track_.front());
 
+    // find the step with the smallest distance to the center
+    double smallest_distance = (geometry.GetPosition() - track_.front().position).magnitude();
+    unsigned int closest_step = 0;
+    double closest_length = 0;
     for (unsigned int i = 0; i < track_.size() - 1; i++) {
         auto pos_i = track_[i].position;
-        auto pos_f = track_[i+1].position;
 
-        auto displacement = pos_f - pos_i;
+        auto displacement = track_[i+1].position - pos_i;
         auto dist_i_f = displacement.magnitude();
+        if (dist_i_f == 0)
+            continue;
         displacement.normalize();
 
-        auto distance_to_closest_approach
-            = geometry.DistanceToClosestApproach(pos_i, displacement);
-        if (std::abs(distance_to_closest_approach - dist_i_f) <= PARTICLE_POSITION_RESOLUTION) {
-            return std::make_unique<ParticleState>(track_[i+1]);
-        } else if (distance_to_closest_approach < dist_i_f) {
-            if (distance_to_closest_approach < PARTICLE_POSITION_RESOLUTION)
-                return std::make_unique<ParticleState>(track_[i]);
-
-            auto closest_approach = RePropagateDistance(
-                    track_[i], displacement, distance_to_closest_approach);
-            return std::make_unique<ParticleState>(closest_approach);
+        auto length = geometry.DistanceToClosestApproach(pos_i, displacement);
+        length = std::min(std::max(length, 0.), dist_i_f);
+        auto distance = (geometry.GetPosition() - (pos_i + displacement * length)).magnitude();
+        if (distance < smallest_distance) {
+            smallest_distance = distance;
+            closest_step = i;
+            closest_length = length;
         }
     }
-    return std::make_unique<ParticleState>(track_.back());
+
+    auto displacement = track_[closest_step + 1].position - track_[closest_step].position;
+    if (closest_length < PARTICLE_POSITION_RESOLUTION)
+        return std::make_unique<ParticleState>(track_[closest_step]);
+    if (std::abs(displacement.magnitude() - closest_length) <= PARTICLE_POSITION_RESOLUTION)
+        return std::make_unique<ParticleState>(track_[closest_step + 1]);
+    displacement.normalize();
+    auto closest_approach = RePropagateDistance(
+            track_[closest_step], displacement, closest_length);
+    return std::make_unique<ParticleState>(closest_approach);
 }
 
 bool Secondaries::HitGeometry(const Geometry& geometry) const {
-- 
2.43.0


From 88a4caf1126223d94722fd2c937333b927936e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 76/98] fix: continuous losses in a geometry are the steps
 which start inside instead of those which end inside

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 22c46d3..9da321f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -487,8 +487,12 @@ std::vector<ContinuousLoss> Secondaries::GetContinuousLosses(const Geometry& geo
     // the track points are not exactly on the geometry border
     std::vector<ContinuousLoss> losses;
     for (unsigned int i=1; i<track_.size(); i++) {
-        if (geometry.IsInside(track_[i].position, track_[i].direction)) {
-            if (types_[i] == InteractionType::ContinuousEnergyLoss) {
+        if (types_[i] == InteractionType::ContinuousEnergyLoss) {
+            // a step which ends on the border when entering the geometry is
+            // outside of it, one which ends on the border when leaving is not
+            auto displacement = track_[i].position - track_[i-1].position;
+            displacement.normalize();
+            if (geometry.IsInside(track_[i-1].position, displacement)) {
                 losses.emplace_back(
                         track_[i-1].energy - track_[i].energy,
                         track_[i-1].energy,
-- 
2.43.0


From 3cbdcfba03aa546a3c59312d5f3d1c4501d997c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 77/98] fix: directions after multiple scattering are unit
 vectors for offsets larger than one

---
 .../multiple_scattering/Parametrization.cxx           | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
index cd2e7fe..36685cf 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
@@ -38,10 +38,13 @@ bool Parametrization::operator==(const Parametrization& scattering) const
 namespace PROPOSAL {
     namespace multiple_scattering {
         std::pair<Cartesian3D, Cartesian3D> ScatterInitialDirection(const Vector3D& direction, const ScatteringOffset& offsets) {
-            auto& sx = offsets.sx;
-            auto& sy = offsets.sy;
-            auto& tx = offsets.tx;
-            auto& ty = offsets.ty;
+            // offsets are the transverse components of unit vectors
+            auto s_norm = std::max(std::hypot(offsets.sx, offsets.sy), 1.);
+            auto t_norm = std::max(std::hypot(offsets.tx, offsets.ty), 1.);
+            auto sx = offsets.sx / s_norm;
+            auto sy = offsets.sy / s_norm;
+            auto tx = offsets.tx / t_norm;
+            auto ty = offsets.ty / t_norm;
             auto sz = std::sqrt(std::max(1. - (sx * sx + sy * sy), 0.));
             auto tz = std::sqrt(std::max(1. - (tx * tx + ty * ty), 0.));
 
-- 
2.43.0


From 77ce8a2ae0eb7d90eb2a1bd9cdafbd720abbbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 78/98] fix: comparing a Highland model with another scattering
 model crashes

---
 .../PROPOSAL/scattering/multiple_scattering/Highland.cxx      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
index 8d3fdfb..718087e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
@@ -33,7 +33,9 @@ bool Highland::compare(const Parametrization& scattering) const
 {
     auto sc = dynamic_cast<const Highland*>(&scattering);
 
-    if (radiation_length != sc->radiation_length)
+    if (!sc)
+        return false;
+    else if (radiation_length != sc->radiation_length)
         return false;
     else if (charge != sc->charge)
         return false;
-- 
2.43.0


From 90a593e0591445e7707d7beaee262b04e1d6215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 79/98] fix: copies of a HighlandIntegral use the original
 after its destruction

---
 .../scattering/multiple_scattering/HighlandIntegral.h       | 2 +-
 .../scattering/multiple_scattering/HighlandIntegral.cxx     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
index 4224f35..ad38522 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
@@ -41,7 +41,7 @@ namespace multiple_scattering {
     class HighlandIntegral : public Highland {
         std::shared_ptr<UtilityIntegral> highland_integral;
 
-        inline double Integral(Displacement&, double);
+        static inline double Integral(Displacement&, double energy, double mass);
 
     public:
         HighlandIntegral(const ParticleDef& p, Medium const& m,
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
index bd7e34c..04421e5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
@@ -17,7 +17,7 @@ double HighlandIntegral::CalculateTheta0(double grammage, double ei, double ef)
     return std::min(aux, 1.0);
 }
 
-double HighlandIntegral::Integral(Displacement& disp, double energy)
+double HighlandIntegral::Integral(Displacement& disp, double energy, double mass)
 {
     auto square_momentum = (energy - mass) * (energy + mass);
     auto aux = energy / square_momentum;
@@ -28,14 +28,14 @@ HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::false_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityIntegral>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [disp, mass = p.mass](double E) { return Integral(*disp, E, mass); },
                 disp->GetLowerLim(), disp->GetHash())) {};
 
 HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::true_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityInterpolant>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [disp, mass = p.mass](double E) { return Integral(*disp, E, mass); },
                 disp->GetLowerLim(), disp->GetHash())) {
         highland_integral->BuildTables("scattering_", 500, true);
 };
-- 
2.43.0


From 242bc6e24b0bb9ca4d58c49b570d050ec3c80e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 80/98] fix: Moliere scattering ignores the charge of the
 particle and deflects neutral particles

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.h      | 1 +
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx    | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Moliere.h b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Moliere.h
index 9c82266..4227f1e 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Moliere.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Moliere.h
@@ -45,6 +45,7 @@ namespace multiple_scattering {
         bool compare(const Parametrization&) const override;
         void print(std::ostream&) const override;
 
+        double charge_sq_; // square of the charge of the particle
         int numComp_; // number of components in medium
         double ZSq_A_average_;
         std::vector<double> Zi_; // nuclear charge of different components
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index 0f5c471..fbcb6c3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -30,13 +30,13 @@ double Moliere::GetPrefactor(double ei, double grammage) {
         chi_0 = ME * ALPHA * std::pow(Zi_[i] * 128. / (9. * PI * PI), 1. / 3.);
         // Calculate Chi_a^2
         chi_A_Sq[i] = chi_0 * chi_0 / momentum_Sq
-                      * (1.13 + 3.76 * ALPHA * ALPHA * Zi_[i] * Zi_[i] / beta_Sq);
+                      * (1.13 + 3.76 * ALPHA * ALPHA * Zi_[i] * Zi_[i] * charge_sq_ / beta_Sq);
     }
 
     // Calculate Chi_c^2
     chiCSq_ = ((4. * PI * NA * ALPHA * ALPHA * HBAR * HBAR * SPEED * SPEED)
                * (grammage) / beta_p_Sq)
-              * ZSq_A_average_;
+              * ZSq_A_average_ * charge_sq_;
 
     // Calculate B
 
@@ -126,6 +126,7 @@ double Moliere::CalculateScatteringAngle2D(double grammage, double ei, double ef
 
 Moliere::Moliere(const ParticleDef& particle_def, Medium const& medium)
     : Parametrization(particle_def.mass)
+    , charge_sq_(particle_def.charge * particle_def.charge)
     , numComp_(medium.GetNumComponents())
     , ZSq_A_average_(0.0)
     , Zi_(numComp_)
@@ -190,6 +191,8 @@ bool Moliere::compare(const Parametrization& scattering) const
 
     if (!sc)
         return false;
+    else if (charge_sq_ != sc->charge_sq_)
+        return false;
     else if (numComp_ != sc->numComp_)
         return false;
     else if (ZSq_A_average_ != sc->ZSq_A_average_)
-- 
2.43.0


From f2119f88eed71f4dd4b015611bfa83881a24f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 81/98] fix: equal Moliere models compare unequal after one of
 them was used

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx       | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index fbcb6c3..2b37406 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -205,10 +205,6 @@ bool Moliere::compare(const Parametrization& scattering) const
         return false;
     else if (max_weight_index_ != sc->max_weight_index_)
         return false;
-    else if (chiCSq_ != sc->chiCSq_)
-        return false;
-    else if (B_ != sc->B_)
-        return false;
     else
         return true;
 }
-- 
2.43.0


From 35719e08d4e9672c0e8849ccfcd27311e2d82744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 82/98] fix: Moliere scatters on tiny paths where the iteration
 for B has no solution

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index 2b37406..555e077 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -45,6 +45,12 @@ double Moliere::GetPrefactor(double ei, double grammage) {
         // Newton-Raphson method
         double xn = 15.;
 
+        // the equation has no solution larger than 4.5 (see below) if its
+        // right side is too small, the iterations may end anywhere
+        if (std::log(chiCSq_ / chi_A_Sq[i]) + 1. - 2. * EULER_MASCHERONI
+            < 4.5 - std::log(4.5))
+            return 0;
+
         for (int n = 0; n < 6; n++) {
             if (xn < 0)
                 return 0; // xn would become nan for further iterations
-- 
2.43.0


From 3fbdc9e56e9c221cefb993425c2b00b3f2b902f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:00 +0000
Subject: [PATCH 83/98] fix: BremsGinneken throws for losses close to the
 transition of its parametrization

---
 .../bremsstrahlung/BremsGinneken.cxx                      | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
index afc7baa..e8c4bef 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
@@ -47,11 +47,9 @@ double stochastic_deflection::BremsGinneken::get_rms_theta(double e_i, double e_
             double nu_g = get_nu_g(n, k_4);
             auto k_5 = k_4 * pow(nu_g, 1 + n) * pow(1 - nu_g, 0.5 - n);
             rms_theta = k_5 * pow(1 - nu, -0.5);
-            if (rms_theta < 0.2) {
-                // This case is an undefined state
-                throw std::invalid_argument("BremsGinneken deflection rms_theta = " + to_string(rms_theta) + " < 0.2 is not defined in this case");
-            }
-            return rms_theta;
+            // nu_g is known with limited precision only, the parametrization
+            // is continuous at 0.2
+            return max(rms_theta, 0.2);
         }
     }
 }
-- 
2.43.0


From c90274cb9d4bca31a5d6ba01d0de54eb020a492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:00 +0000
Subject: [PATCH 84/98] fix: deflection angles of the Ginneken models exceed pi

---
 .../stochastic_deflection/bremsstrahlung/BremsGinneken.cxx      | 2 +-
 .../stochastic_deflection/epairproduction/EpairGinneken.cxx     | 2 +-
 .../stochastic_deflection/photonuclear/PhotoGinneken.cxx        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
index e8c4bef..f174143 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
@@ -69,7 +69,7 @@ stochastic_deflection::BremsGinneken::CalculateStochasticDeflection(
     
     auto lambda = 1 / (rms_theta * rms_theta);
     // Need sqrt because of sampling in theta^2
-    auto theta_muon = std::sqrt(SampleFromExponential(rnd[0], lambda));
+    auto theta_muon = std::min(std::sqrt(SampleFromExponential(rnd[0], lambda)), PI);
     
     return UnitSphericalVector {theta_muon, 2 * PI * rnd[1]};
 }
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/epairproduction/EpairGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/epairproduction/EpairGinneken.cxx
index 0de53a2..d195499 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/epairproduction/EpairGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/epairproduction/EpairGinneken.cxx
@@ -30,7 +30,7 @@ stochastic_deflection::EpairGinneken::CalculateStochasticDeflection(
     
     auto lambda = 1 / (rms_theta * rms_theta);
     // Need sqrt because of sampling in theta^2
-    auto theta_muon = std::sqrt(SampleFromExponential(rnd[0], lambda));
+    auto theta_muon = std::min(std::sqrt(SampleFromExponential(rnd[0], lambda)), PI);
 
     return UnitSphericalVector { theta_muon, 2 * PI * rnd[1] };
 }
\ No newline at end of file
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
index 7f1a2fc..51731ff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
@@ -19,7 +19,7 @@ stochastic_deflection::PhotoGinneken::CalculateStochasticDeflection(
 
     auto lambda = 1 / (rms_theta * rms_theta);
     // Need sqrt because of sampling in theta^2
-    auto theta_muon = std::sqrt(SampleFromExponential(rnd[0], lambda));
+    auto theta_muon = std::min(std::sqrt(SampleFromExponential(rnd[0], lambda)), PI);
 
     return UnitSphericalVector { theta_muon, 2 * PI * rnd[1] };
 }
\ No newline at end of file
-- 
2.43.0


From 8b6654183490608d4e80d62307505cc488b4367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:00 +0000
Subject: [PATCH 85/98] fix: BremsTsaiApproximation gives infinite angles for
 random numbers close to one

---
 .../bremsstrahlung/BremsTsaiApproximation.cxx                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsTsaiApproximation.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsTsaiApproximation.cxx
index 793a543..3270e32 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsTsaiApproximation.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsTsaiApproximation.cxx
@@ -10,8 +10,8 @@ stochastic_deflection::BremsTsaiApproximation::CalculateStochasticDeflection(
     auto epsilon = e_i - e_f;
     auto theta_star = 1.0;
     auto r_max = std::min(1.0, e_f/epsilon) * e_i * theta_star / mass;
-    auto a = rnd[0] * r_max*r_max / (1.0 + r_max*r_max);
-    auto r = std::sqrt(a / (1.0-a));
+    // invert r^2 / (1 + r^2) = rnd * r_max^2 / (1 + r_max^2)
+    auto r = r_max * std::sqrt(rnd[0] / (1.0 + r_max*r_max * (1.0 - rnd[0])));
     auto theta_photon = mass / e_i * r;
     auto theta_muon = epsilon / e_f * theta_photon;
 
-- 
2.43.0


From 2dbc4daef9f1326fb34d544a75d576e8e084ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:00 +0000
Subject: [PATCH 86/98] fix: IonizNaive gives NaN for small losses and for
 particles which lose everything

---
 .../stochastic_deflection/ionization/IonizNaive.cxx         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
index 7343b7e..e593aa5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
@@ -11,5 +11,11 @@ stochastic_deflection::IonizNaive::CalculateStochasticDeflection(
     auto p_f = std::sqrt((e_f + mass) * (e_f - mass));
     auto costheta = ((e_i + ME) * e_f - e_i * ME - mass * mass) / (p_i * p_f);
 
+    // rounding errors may exceed the domain of acos, a particle at rest
+    // (p_f = 0) has no direction
+    if (!(costheta < 1.))
+        costheta = 1.;
+    costheta = std::max(costheta, -1.);
+
     return UnitSphericalVector { std::acos(costheta), 2 * PI * rnd[0] };
 }
\ No newline at end of file
-- 
2.43.0


From 2fb913061660735be313a35702cceb822d0fbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 87/98] fix: PhotoBorogPetrukhin gives NaN for random numbers
 close to one

---
 .../stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
index dfcde07..5f19c64 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
@@ -16,6 +16,7 @@ stochastic_deflection::PhotoBorogPetrukhin::CalculateStochasticDeflection(
     auto t_1 = std::min(epsilon * epsilon, m_0 * m_0);
     auto t_p = (t_max * t_1) / ((t_max + t_1) * pow(((t_max * (t_min + t_1)) / (t_min * (t_max + t_1))), rnd[0]) - t_max); 
     auto sin2 = (t_p - t_min) / (4 * (e_i * e_f - mass * mass) - 2 * t_min);
+    sin2 = std::min(std::max(sin2, 0.), 1.); // rounding errors
     auto theta_muon = 2 * std::asin(std::sqrt(sin2));
 
     return UnitSphericalVector { theta_muon, 2 * PI * rnd[1] };
-- 
2.43.0


From fc606d2c726acd1ff8744be7372a813e8fba8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 88/98] fix: PhotoGinneken gives NaN for particles which lose
 all their kinetic energy

---
 .../stochastic_deflection/photonuclear/PhotoGinneken.cxx        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
index 51731ff..4ce0c63 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
@@ -15,6 +15,8 @@ stochastic_deflection::PhotoGinneken::CalculateStochasticDeflection(
     auto muon_mass = mass / 1000.0;
 
     auto nu = (e_i - e_f) / (e_i - muon_mass);
+    if (nu >= 1.)
+        return UnitSphericalVector { 0., 2 * PI * rnd[1] }; // particle at rest
     auto rms_theta = (0.39 / (e_i * (1 - nu))) * pow(std::sqrt(e_i) * nu *(1 - nu), 0.17) * (1 - 0.135 / (e_i * nu));
 
     auto lambda = 1 / (rms_theta * rms_theta);
-- 
2.43.0


From b2e0e23042673580251ff39607c7ebf2f5bc25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 89/98] fix: transition of the BremsGinneken parametrization is
 not resolved at high energies

---
 .../stochastic_deflection/bremsstrahlung/BremsGinneken.cxx      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
index f174143..9467829 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
@@ -21,7 +21,7 @@ double stochastic_deflection::BremsGinneken::get_nu_g(double n, double k_4) cons
     };
     if (f(0.5) * f(1.) < 0) { 
         // check different sign of the definition range, not possible for e_i < 0.7 GeV
-        auto nu_g_x = Bisection(f, 0.5, 1., 1e-5, 100);
+        auto nu_g_x = Bisection(f, 0.5, 1., 1e-15, 100);
         return (nu_g_x.first + nu_g_x.second) / 2;
     } 
     return 0.5; // return boundary value of parametrization
-- 
2.43.0


From efda46a09b92443170d3b59460ba0db73a088d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:58 +0000
Subject: [PATCH 90/98] fix: SecondariesCalculator dereferences a missing model
 for interaction types without one

---
 .../secondaries/SecondariesCalculator.h       |  5 +---
 .../secondaries/SecondariesCalculator.cxx     | 28 ++++++++++++++++---
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h b/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
index 51b93d6..949a98d 100644
--- a/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
+++ b/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
@@ -56,10 +56,7 @@ public:
     //!
     //! Returns number required for calculation of a specific interactiontype.
     //!
-    inline size_t RequiredRandomNumbers(InteractionType type) const noexcept
-    {
-        return secondary_generator.find(type)->second->RequiredRandomNumbers();
-    }
+    size_t RequiredRandomNumbers(InteractionType type) const;
 
     //!
     //! Calculates the secondary particle for a given loss. Initial particle is
diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
index 442399d..dd04e98 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
@@ -2,6 +2,29 @@
 
 using namespace PROPOSAL;
 
+namespace {
+std::logic_error NoCalculator(InteractionType type)
+{
+    std::ostringstream s;
+    auto name = Type_Interaction_Name_Map.find(type);
+    s << "No secondary calculator for interaction type (";
+    if (name != Type_Interaction_Name_Map.end())
+        s << name->second;
+    else
+        s << static_cast<int>(type);
+    s << ") available.";
+    return std::logic_error(s.str());
+}
+} // namespace
+
+size_t SecondariesCalculator::RequiredRandomNumbers(InteractionType type) const
+{
+    auto it = secondary_generator.find(type);
+    if (it == secondary_generator.end())
+        throw NoCalculator(type);
+    return it->second->RequiredRandomNumbers();
+}
+
 std::vector<ParticleState> SecondariesCalculator::CalculateSecondaries(
         StochasticLoss loss, const Component& comp, std::vector<double> &rnd)
 {
@@ -9,8 +32,5 @@ std::vector<ParticleState> SecondariesCalculator::CalculateSecondaries(
     auto it = secondary_generator.find(type);
     if (it != secondary_generator.end())
         return it->second->CalculateSecondaries(loss, comp, rnd);
-    std::ostringstream s;
-    s << "No secondary calculator for interaction type ("
-        << Type_Interaction_Name_Map.find(type)->second << ") available.";
-    throw std::logic_error(s.str());
+    throw NoCalculator(type);
 }
-- 
2.43.0


From 2d2adba0eb88a2d076845520e2f03c1332b96143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:58 +0000
Subject: [PATCH 91/98] fix: MupairProduction secondaries use the limit of an
 earlier integral at the edge of the phase space

---
 .../KelnerKokoulinPetrukhinMupairProduction.cxx             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx
index e9ef5d5..9991b9c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx
@@ -23,12 +23,14 @@ double secondaries::KelnerKokoulinPetrukhinMupairProduction::CalculateRho(
     auto rho_max = 1 - 2 * MMU / (v * energy);
     if (rho_max < 0)
         return 0;
-    integral.IntegrateWithRandomRatio(0, rho_max,
+    auto integrated = integral.IntegrateWithRandomRatio(0, rho_max,
         [&](double rho) {
             return param.FunctionToIntegral(p_def, comp, energy, v, rho);
         },
         3, rnd1);
-    auto rho_tmp = integral.GetUpperLimit();
+    auto rho_tmp = 0.;
+    if (integrated > 0)
+        rho_tmp = integral.GetUpperLimit();
     if (rnd2 < 0.5) {
         return -rho_tmp;
     } else {
-- 
2.43.0


From 7cfc4d352eaffee5a15d3233f0e5f9f029b093b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:58 +0000
Subject: [PATCH 92/98] fix: PhotoMuPair secondaries produces muons with
 energies below their mass

---
 .../PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx
index e16fcf8..1bb4a50 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx
@@ -10,9 +10,15 @@ double secondaries::PhotoMuPairProductionBurkhardtKelnerKokoulin::Calculatex(
         if (comp.GetHash() == it.first) {
             auto& calc = *std::get<1>(it.second);
             auto lim = calc.GetIntegrationLimits(energy);
-            auto rate = rnd * calc.Calculate(energy, lim.max);
-            auto rho = calc.GetUpperLimit(energy, rate);
-            return rho;
+            // the limits of the cross section reach below the muon mass, both
+            // muons however need at least their rest energy
+            auto x_min = std::max(lim.min, MMU / energy);
+            auto x_max = std::min(lim.max, 1. - MMU / energy);
+            auto rate_min = calc.Calculate(energy, x_min);
+            auto rate_max = calc.Calculate(energy, x_max);
+            auto rate = rate_min + rnd * (rate_max - rate_min);
+            auto x = calc.GetUpperLimit(energy, rate);
+            return std::max(x_min, std::min(x, x_max));
         }
     }
     std::ostringstream s;
-- 
2.43.0


From b72df4974b7a75f6bdf6a61dd4a3cb1da5f42151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:02 +0000
Subject: [PATCH 93/98] fix: annihilation secondaries are not resolved at high
 energies

---
 .../parametrization/annihilation/HeitlerAnnihilation.cxx   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
index 6b86611..ece420b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
@@ -1,6 +1,9 @@
 #include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
 #include "PROPOSAL/math/MathMethods.h"
 
+#include <algorithm>
+#include <limits>
+
 using namespace PROPOSAL;
 
 double secondaries::HeitlerAnnihilation::f_term(double a1, double a2, double rho) {
@@ -30,7 +33,9 @@ double secondaries::HeitlerAnnihilation::CalculateRho(double energy, double rnd,
     double a1 = 1 + 2 * gamma * a2;
 
     auto function_to_solve = [&](double rho) { return f(rho, a1, a2, rho_min, rho_max, rnd); };
-    double precision = rho_min * energy * HALF_PRECISION;
+    // rho is dimensionless and can become as small as rho_min
+    double precision = std::max(rho_min * HALF_PRECISION,
+                                std::numeric_limits<double>::epsilon());
     return Bisection(function_to_solve, rho_min, rho_max, precision, 100).first;
 }
 
-- 
2.43.0


From 070c1ff367da5c3040a32fecdb5c1f9af194369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:02 +0000
Subject: [PATCH 94/98] fix: Integral::GetUpperLimit gives NaN where the
 integrand vanishes

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 89ae158..7f1aff5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -1306,7 +1306,7 @@ void Integral::RefineUpperLimit(double result)
             // fhi = f;
         }
 
-        if (((currentX - xhi) * df - f) * ((currentX - xlow) * df - f) > 0 || std::abs(2 * f) > std::abs(deltaOld * df))
+        if (df == 0 || ((currentX - xhi) * df - f) * ((currentX - xlow) * df - f) > 0 || std::abs(2 * f) > std::abs(deltaOld * df))
         {
             deltaOld = deltaX;
             deltaX   = (xhi - xlow) / 2;
-- 
2.43.0


From a326b06b108274752a92c8bc8afca6b2d89bab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:02 +0000
Subject: [PATCH 95/98] fix: MupairProduction uses the number of atoms in the
 molecule as atomic weight

---
 .../PROPOSAL/crosssection/parametrization/MupairProduction.cxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
index 57cacec..664a637 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
@@ -92,7 +92,7 @@ double crosssection::MupairKelnerKokoulinPetrukhin::FunctionToIntegral(
     double aux, aux1, aux2, r2, rMax, Z3, xi, beta, A_pow, r_mu;
     double phi, U, U_max, X, Y;
     double medium_charge = comp.GetNucCharge();
-    double atomic_weight = comp.GetAtomInMolecule();
+    double atomic_weight = comp.GetAtomicNum();
     // double medium_log_constant =
     // components_[component_index_]->GetLogConstant();
     double medium_log_constant = 183; // According to the paper, B is set to 183
-- 
2.43.0


From e429be2dc777e42cf586d208a3317cbe715c4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:53 +0000
Subject: [PATCH 96/98] fix: EpairForElectronPositron integrates over the wrong
 range of the asymmetry

---
 .../PROPOSAL/crosssection/parametrization/EpairProduction.cxx    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
index a8fb16c..83390f7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
@@ -490,6 +490,7 @@ double crosssection::EpairForElectronPositron::FunctionToIntegral(
     // double medium_log_constant = 183; // According to the paper, B is set to
     // 183
 
+    rho = 1 - rho; // see DifferentialCrossSection, which integrates over 1 - rho
     r2 = rho * rho;
     rMax = 1 - 2 * ME / (v * energy);
     Z3 = std::pow(medium_charge, -1. / 3);
-- 
2.43.0


From 11e67d96eb30933e856c683439ec7ddf8850060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 97/98] fix: EpairProduction secondaries sample the asymmetry
 from the mirrored distribution

---
 .../KelnerKokoulinPetrukhinEpairProduction.h          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h b/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
index f449edb..465090b 100644
--- a/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
+++ b/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
@@ -5,6 +5,7 @@
 #include "PROPOSAL/medium/Medium.h"
 #include "PROPOSAL/secondaries/parametrization/epairproduction/EpairProduction.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 
 namespace PROPOSAL {
@@ -53,13 +54,15 @@ namespace secondaries {
                 throw std::logic_error(ss.str());
             }
 
-            auto integrand = [&](double rho) {
-                return param.FunctionToIntegral(p_def, comp, energy, v, rho);
+            // the parametrization is given as a function of r = 1 - rho
+            auto integrand = [&](double r) {
+                return param.FunctionToIntegral(p_def, comp, energy, v, r);
             };
 
             auto rho = 0.;
-            if (integral.IntegrateWithRandomRatio(0, rho_max, integrand, 3, rnd1) > 0)
-                rho = integral.GetUpperLimit();
+            auto r_min = std::max(1 - rho_max, COMPUTER_PRECISION);
+            if (integral.IntegrateWithRandomRatio(r_min, 1, integrand, 4, rnd1) > 0)
+                rho = 1 - integral.GetUpperLimit();
 
             if (rnd2 < 0.5)
                 rho *= -1.;
-- 
2.43.0


From 6e342452c2a5a29411ee7ddb146405d53017e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:25 +0000
Subject: [PATCH 98/98] fix: PhotoMuPair secondaries ask for rates which the
 table does not reach

---
 .../PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx
index 1bb4a50..0a2dffe 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx
@@ -1,5 +1,7 @@
 #include "PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.h"
 
+#include <algorithm>
+
 using namespace PROPOSAL;
 
 double secondaries::PhotoMuPairProductionBurkhardtKelnerKokoulin::Calculatex(
@@ -10,14 +12,12 @@ double secondaries::PhotoMuPairProductionBurkhardtKelnerKokoulin::Calculatex(
         if (comp.GetHash() == it.first) {
             auto& calc = *std::get<1>(it.second);
             auto lim = calc.GetIntegrationLimits(energy);
+            auto rate = rnd * calc.Calculate(energy, lim.max);
+            auto x = calc.GetUpperLimit(energy, rate);
             // the limits of the cross section reach below the muon mass, both
             // muons however need at least their rest energy
             auto x_min = std::max(lim.min, MMU / energy);
             auto x_max = std::min(lim.max, 1. - MMU / energy);
-            auto rate_min = calc.Calculate(energy, x_min);
-            auto rate_max = calc.Calculate(energy, x_max);
-            auto rate = rate_min + rnd * (rate_max - rate_min);
-            auto x = calc.GetUpperLimit(energy, rate);
             return std::max(x_min, std::min(x, x_max));
         }
     }
-- 
2.43.0

